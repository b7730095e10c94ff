-------------------------------- MODULE Nodes --------------------------------
(* Collocation nodes.  LGR and LGL: both ends and the zeros of the Jacobi     *)
(* polynomial P(1,0) resp. P(1,1) of degree d-1; CGL: the extrema of the      *)
(* Chebyshev polynomial T_d, i.e. both ends and the zeros of U_{d-1}.         *)
EXTENDS Poly, Json

RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN R(1) ELSE RDiv(RMul(Choose(n, k - 1), n - k + 1), k)
\* Jacobi polynomial by its explicit sum (a, b natural numbers).
JacobiEval(n, a, b, x) ==
  LET l == RDiv(RSub(x, 1), 2)  r == RDiv(RAdd(x, 1), 2)
  IN  RSum([k \in 1..(n + 1) |->
        LET s == k - 1 IN RProd(<< Choose(n + a, n - s), Choose(n + b, s), RPow(l, s), RPow(r, n - s) >>)])
RECURSIVE ChebU(_, _)
ChebU(n, x) == IF n = 0 THEN << R(0), R(1) >>          \* << U_{n-1}, U_n >>
               ELSE LET p == ChebU(n - 1, x) IN Force(<< p[2], RSub(RProd(<< 2, x, p[2] >>), p[1]) >>)
\* The polynomial of degree d-1 whose zeros are the interior nodes.
InteriorPoly(scheme, d, x) ==
  CASE scheme = "LGR" -> JacobiEval(d - 1, 1, 0, x)
    [] scheme = "LGL" -> JacobiEval(d - 1, 1, 1, x)
    [] scheme = "CGL" -> ChebU(d - 1, x)[2]
\* A zero lies within eps of x.
ZeroNear(scheme, d, x, eps) ==
  LET v == RMul(InteriorPoly(scheme, d, RSub(x, eps)), InteriorPoly(scheme, d, RAdd(x, eps)))
  IN  RLe(v, 0)

Schemes == {"LGR", "LGL", "CGL"}
Table == JsonDeserialize("nodes.json")
\* Nodes on the reference interval [-1, 1]; exact to 2^-99, see NodesMC.
RefNodes(scheme, d) == Force(RSeq(<< -1 >> \o Table[scheme][d] \o << 1 >>))
\* ... and on [lo, hi]
NodesOn(scheme, d, lo, hi) ==
  [i \in 1..(d + 1) |-> RAdd(lo, RMul(RDiv(RSub(hi, lo), 2), RAdd(RefNodes(scheme, d)[i], 1)))]
=============================================================================
