------------------------------- MODULE NodesMC -------------------------------
(* Verifies the node table: for every scheme and degree 1..24 the table has   *)
(* d-1 strictly increasing values inside (-1,1), each within 2^-95 of a zero  *)
(* of the defining polynomial (sign change in exact arithmetic); so these are *)
(* all its zeros.  Also checks the design facts the other modules rely on:    *)
(* quadrature exactness beyond the degree for LGR and LGL.                    *)
EXTENDS Nodes
CONSTANT DMax
VARIABLES scheme, d, basis
vars == << scheme, d, basis >>
Eps == RDiv(1, RPow(2, 95))
Init == scheme \in Schemes /\ d = 0 /\ basis = << >>
Next == d < DMax /\ d' = d + 1 /\ UNCHANGED scheme /\ basis' = Basis(RefNodes(scheme, d + 1))
Spec == Init /\ [][Next]_vars
nodes == RefNodes(scheme, d)
Increasing == d > 0 => \A i \in 1..d : RLt(nodes[i], nodes[i + 1])
AreZeros == d > 0 => /\ Len(nodes) = d + 1
                     /\ \A i \in 2..d : ZeroNear(scheme, d, nodes[i], Eps)
Tiny == RDiv(1, RPow(2, 60))
W == IntRow(basis, -1, 1)
Moment(k) == IF k % 2 = 1 THEN R(0) ELSE RDiv(2, k + 1)
ExactTo == CASE scheme = "LGR" -> IF d = 1 THEN 1 ELSE 2 * d - 2
             [] scheme = "LGL" -> 2 * d - 1
             [] scheme = "CGL" -> d
QuadratureExact == d > 0 =>
  LET w == W IN \A k \in 0..ExactTo :
     RLe(RAbs(RSub(RDot(w, [i \in 1..(d + 1) |-> RPow(nodes[i], k)]), Moment(k))), Tiny)
\* one degree more is not exact (so the statement above is sharp); LGR d=1 is the trapezoid
QuadratureSharp == d > 1 /\ scheme # "CGL" =>
  LET w == W  k == ExactTo + 1 IN
     RLt(Tiny, RAbs(RSub(RDot(w, [i \in 1..(d + 1) |-> RPow(nodes[i], k)]), Moment(k))))
\* The derivative of x^k is exact at every node for k <= d
DerivativeExact == d > 0 => \A i \in 1..(d + 1) :
  LET row == DerRow(basis, nodes[i], 1) IN \A k \in 0..d :
     RLe(RAbs(RSub(RDot(row, [j \in 1..(d + 1) |-> RPow(nodes[j], k)]),
                   IF k = 0 THEN 0 ELSE RMul(k, RPow(nodes[i], k - 1)))), Tiny)
=============================================================================
