------------------------------- MODULE CollocMC -------------------------------
(* Design check of the composite operators: meshes are grown segment by       *)
(* segment; the operators are exact on continuous piecewise polynomials, act  *)
(* on the own segment only and agree with the advertised ownership of shared  *)
(* nodes.                                                                     *)
EXTENDS Colloc
CONSTANTS MaxSegs, MaxDeg
VARIABLES scheme, orders
vars == << scheme, orders >>
Init == scheme \in Schemes /\ orders = << >>
AddSegment == /\ Len(orders) < MaxSegs
              /\ \E d \in 1..MaxDeg : orders' = Append(orders, d)
              /\ UNCHANGED scheme
Next == AddSegment
Spec == Init /\ [][Next]_vars
Ns == [s \in Schemes |-> [d \in 1..MaxDeg |-> RefNodes(s, d)]]
Bs == Force([s \in Schemes |-> [d \in 1..MaxDeg |-> Basis(RefNodes(s, d))]])
bases == [s \in 1..Len(orders) |-> Bs[scheme][orders[s]]]
nodes == [s \in 1..Len(orders) |-> Ns[scheme][orders[s]]]
N == NodeCount(orders)
On == Len(orders) > 0
\* mesh coordinate: segment s covers [2s-2, 2s]
Y(s, tau) == RAdd(2 * s - 1, tau)
Pos == [n \in 1..N |-> LET o == NodeMap(orders)[n] IN Y(o[1], nodes[o[1]][o[2]])]
Tiny == RDiv(1, RPow(2, 60))
Close(a, b) == RLe(RAbs(RSub(a, b)), Tiny)
\* Ownership: every node has one owner; inner boundary nodes belong to the segment that ends there.
Ownership == On =>
  /\ \A n \in 1..N : LET o == NodeMap(orders)[n] IN o[1] \in 1..Len(orders) /\ o[2] \in 1..(orders[o[1]] + 1)
  /\ \A s \in 1..Len(orders) : NodeMap(orders)[LastNode(orders, s)] = << s, orders[s] + 1 >>
  /\ \A s \in 2..Len(orders) : FirstNode(orders, s) = LastNode(orders, s - 1)
\* Continuous piecewise polynomial: (y - 2s+2)^k on segment s, zero before, constant 2^k after.
Bump(s, k, y) == LET z == RSub(y, 2 * s - 2) IN
                 IF RLe(z, 0) THEN R(0) ELSE IF RLe(2, z) THEN RPow(2, k) ELSE RPow(z, k)
Values(s, k) == [n \in 1..N |-> Bump(s, k, Pos[n])]
BumpDer(s, k, o, y) == IF o # s THEN R(0) ELSE IF k = 1 THEN R(1) ELSE RMul(k, RPow(RSub(y, 2 * s - 2), k - 1))
DiffExact == On =>
  LET D == CompositeDiff(orders, bases, nodes, 1) IN
  \A s \in 1..Len(orders) : \A k \in 1..orders[s] : LET v == Force(Values(s, k)) IN
     \A n \in 1..N : Close(RDot(D[n], v), BumpDer(s, k, NodeMap(orders)[n][1], Pos[n]))
QuadExact == On =>
  LET w == CompositeQuad(orders, [s \in 1..Len(orders) |-> IntRow(bases[s], -1, 1)]) IN
  /\ Close(RSum(w), 2 * Len(orders))
  /\ \A s \in 1..Len(orders) : \A k \in 1..orders[s] :
       Close(RDot(w, Values(s, k)),
             RAdd(RDiv(RPow(2, k + 1), k + 1), RMul(RPow(2, k + 1), Len(orders) - s)))
Pts == << R(-1), R("-1/3"), R("1/2"), R(1) >>
InterpExact == On =>
  LET taus == [s \in 1..Len(orders) |-> IF s % 2 = 0 THEN << >> ELSE Pts]
      M == CompositeAt(orders, bases, taus, 0)
      ss == [i \in 1..Len(M) |-> 2 * ((i - 1) \div Len(Pts)) + 1]
  IN \A s \in 1..Len(orders) : \A k \in 1..orders[s] : LET v == Force(Values(s, k)) IN
     \A i \in 1..Len(M) :
        LET y == Y(ss[i], Pts[((i - 1) % Len(Pts)) + 1]) IN Close(RDot(M[i], v), Bump(s, k, y))
=============================================================================
