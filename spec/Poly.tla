-------------------------------- MODULE Poly --------------------------------
(* Polynomials in one variable, as sequences of coefficients, lowest first;   *)
(* interpolation on given nodes in exact arithmetic.                          *)
EXTENDS Rat, TLC

PEval(p, x) == RDot(p, [i \in 1..Len(p) |-> RPow(x, i - 1)])
\* coefficients to a multiple of 2^-128
PScale(p, c) == Force([i \in 1..Len(p) |-> RRnd(RMul(c, p[i]))])
PDer(p) == Force(IF Len(p) <= 1 THEN << R(0) >> ELSE [i \in 1..(Len(p) - 1) |-> RMul(i, p[i + 1])])
RECURSIVE PDerN(_, _)
PDerN(p, k) == IF k = 0 THEN p ELSE PDerN(PDer(p), k - 1)
PAnti(p) == [i \in 1..(Len(p) + 1) |-> IF i = 1 THEN R(0) ELSE RDiv(p[i - 1], i - 1)]
PInt(p, a, b) == LET q == Force(PAnti(p)) IN RSub(PEval(q, b), PEval(q, a))
\* p * (x - r)
PTimesRoot(p, r) ==
  [i \in 1..(Len(p) + 1) |->
     RSub(IF i = 1 THEN 0 ELSE p[i - 1], IF i = Len(p) + 1 THEN 0 ELSE RMul(r, p[i]))]
RECURSIVE PFromRoots(_, _)
PFromRoots(rs, k) == IF k = 0 THEN << R(1) >> ELSE Force(PTimesRoot(PFromRoots(rs, k - 1), rs[k]))

Without(s, j) == [i \in 1..(Len(s) - 1) |-> IF i < j THEN s[i] ELSE s[i + 1]]
\* The j-th Lagrange polynomial: one at node j, zero at the other nodes.
LagrangePoly(nodes, j) ==
  LET rs == Force(Without(nodes, j))
      p  == PFromRoots(rs, Len(rs))
  IN  PScale(p, RDiv(1, RProd([k \in 1..Len(rs) |-> RSub(nodes[j], rs[k])])))
Basis(nodes) == LET ns == Force(RSeq(nodes)) IN Force([j \in 1..Len(ns) |-> LagrangePoly(ns, j)])

\* Rows of the operators that act on values at the nodes; k-th derivative at x, integral.
DerRow(basis, x, k) == Force([j \in 1..Len(basis) |-> RRnd(PEval(PDerN(basis[j], k), x))])
IntRow(basis, a, b) == Force([j \in 1..Len(basis) |-> RRnd(PInt(basis[j], a, b))])
=============================================================================
