------------------------------- MODULE EndToEnd -------------------------------
(* What a retrieved trajectory of a solved problem has to satisfy, in user     *)
(* units, from the retrieved data alone.  A trajectory r gives per phase       *)
(*   x, u  rows, one per node;  t  times of the nodes;  a  parameters          *)
(* c: problem (Ocp); op: operators; everything up to the tolerance tol.        *)
EXTENDS Ocp
Rd(c, op, s) == op[c.scheme][c.orders[s]]
First(c, s) == FirstNode(c.orders, s)
Last(c, s) == FirstNode(c.orders, s) + c.orders[s]
Step(c, f, s) == RDiv(RSub(f.t[Last(c, s)], f.t[First(c, s)]), 2)       \* half the length of segment s
NodeVars(f, n) == f.x[n] \o f.u[n] \o << f.t[n] >> \o f.a
EndVars(c, f) == LET N == NN(c) IN f.x[N] \o << f.t[N] >> \o f.x[1] \o << f.t[1] >> \o f.a
AtLeast(v, lb, tol) == RLe(RSub(lb, RMul(tol, RAdd(1, RAbs(v)))), v)
AtMost(v, ub, tol) == RLe(v, RAdd(ub, RMul(tol, RAdd(1, RAbs(v)))))
Within(v, lb, ub, tol) == AtLeast(v, lb, tol) /\ AtMost(v, ub, tol)
Shape(c, r) == Len(r) = c.np /\ \A p \in 1..c.np :
  /\ Len(r[p].x) = NN(c) /\ Len(r[p].u) = NN(c) /\ Len(r[p].t) = NN(c) /\ Len(r[p].a) = c.na
  /\ \A n \in 1..NN(c) : Len(r[p].x[n]) = c.nx /\ Len(r[p].u[n]) = c.nu
                         /\ \A v \in 1..Len(NodeVars(r[p], n)) : RFin(NodeVars(r[p], n)[v])
Starts(c, r, tol) == \A i \in 1..c.nx : RNear(r[1].x[1][i], c.x00[1][i], tol)
Bounded(c, r, tol) == \A p \in 1..c.np : LET f == r[p] IN
  /\ \A n \in 1..NN(c) : /\ \A i \in 1..c.nx : (p = 1 /\ n = 1) \/ Within(f.x[n][i], c.lbx[p][i], c.ubx[p][i], tol)
                         /\ \A i \in 1..c.nu : Within(f.u[n][i], c.lbu[p][i], c.ubu[p][i], tol)
  /\ Within(f.t[1], c.lbt0[p], c.ubt0[p], tol) /\ Within(f.t[NN(c)], c.lbtf[p], c.ubtf[p], tol)
  /\ \A i \in 1..c.na : Within(f.a[i], c.lba[p][i], c.uba[p][i], tol)
\* time derivative of a node function v at node n, as the node belongs to segment s at place k
Slope(c, op, f, v, s, k) == RDiv(RDot(Rd(c, op, s).D[k], [j \in 1..(c.orders[s] + 1) |-> v[First(c, s) + j - 1]]), Step(c, f, s))
Comp(rows, i) == [n \in 1..Len(rows) |-> rows[n][i]]
RatesKept(c, op, r, tol) == \A p \in 1..c.np : c.diffu[p] =>
  \A i \in 1..c.nu : LET v == Comp(r[p].u, i) IN \A n \in 1..NN(c) :
     LET o == NodeMap(c.orders)[n] IN Within(Slope(c, op, r[p], v, o[1], o[2]), c.lbdu[p], c.ubdu[p], tol)
PathKept(c, r, tol) == \A p \in 1..c.np : \A n \in 1..NN(c) : \A i \in 1..Len(c.path[p]) :
  AtMost(PolyVal(c.path[p][i], NodeVars(r[p], n)), 0, tol)
TermKept(c, r, tol) == \A p \in 1..c.np : \A i \in 1..Len(c.term[p]) : RNear(PolyVal(c.term[p][i], EndVars(c, r[p])), 0, tol)
LinksKept(c, r, tol) == c.np = 1 \/ \A l \in 1..Len(c.links) :
  LET a == r[c.links[l][1]]  b == r[c.links[l][2]]  N == NN(c) IN
  /\ \A i \in 1..c.nx : Within(RSub(b.x[1][i], a.x[N][i]), c.lbe[l][i], c.ube[l][i], tol)
  /\ \A i \in 1..c.nu : RNear(b.u[1][i], a.u[N][i], tol)
  /\ RNear(b.t[1], a.t[N], tol)
Moves(c, op, r, tol) == \A p \in 1..c.np : \A i \in 1..c.nx : LET v == Comp(r[p].x, i) IN \A n \in 1..NN(c) :
  LET o == NodeMap(c.orders)[n]  h == Step(c, r[p], o[1])  e == PolyVal(c.dyn[p][i], NodeVars(r[p], n)) IN
  RNear(RMul(h, Slope(c, op, r[p], v, o[1], o[2])), RMul(h, e), tol)
\* cost: end costs and the quadrature of running costs
Cost(c, op, r) ==
  RSum([p \in 1..c.np |-> RAdd(PolyVal(c.mayer[p], EndVars(c, r[p])),
     LET g == Force([n \in 1..NN(c) |-> PolyVal(c.lagr[p], NodeVars(r[p], n))]) IN
     RSum([s \in 1..NSeg(c) |-> RMul(Step(c, r[p], s), RDot(Rd(c, op, s).W, [j \in 1..(c.orders[s] + 1) |-> g[First(c, s) + j - 1]]))]))])
\* --- a known trajectory: polynomials in time of states and controls, times of the phases, parameters
KnownAt(c, k, p, t) == [x |-> [i \in 1..c.nx |-> PolyVal(k.xs[p][i], << t >>)], u |-> [i \in 1..c.nu |-> PolyVal(k.us[p][i], << t >>)]]
Same(c, k, p, t, x, u, tol) == LET v == KnownAt(c, k, p, t) IN
  /\ Len(x) = c.nx /\ Len(u) = c.nu
  /\ \A i \in 1..c.nx : RNear(x[i], v.x[i], tol)
  /\ \A i \in 1..c.nu : RNear(u[i], v.u[i], tol)
IsKnown(c, k, r, tol) == \A p \in 1..c.np :
  /\ RNear(r[p].t[1], k.ts[p][1], tol) /\ RNear(r[p].t[NN(c)], k.ts[p][2], tol)
  /\ \A i \in 1..c.na : RNear(r[p].a[i], k.as[p][i], tol)
  /\ \A n \in 1..NN(c) : Same(c, k, p, r[p].t[n], r[p].x[n], r[p].u[n], tol)
\* the known trajectory on the nodes of another one with the same phase times
OnNodes(c, k, r) == Force([p \in 1..c.np |->
  [x |-> [n \in 1..NN(c) |-> KnownAt(c, k, p, r[p].t[n]).x], u |-> [n \in 1..NN(c) |-> KnownAt(c, k, p, r[p].t[n]).u],
   t |-> [n \in 1..NN(c) |-> R(r[p].t[n])], a |-> [i \in 1..c.na |-> R(k.as[p][i])]]])
\* names of the conditions a trajectory violates
Broken(c, op, r, tol) ==
  IF ~Shape(c, r) THEN {"shape"} ELSE
       (IF Starts(c, r, tol) THEN {} ELSE {"initial state"})
  \cup (IF Bounded(c, r, tol) THEN {} ELSE {"bounds"})
  \cup (IF RatesKept(c, op, r, tol) THEN {} ELSE {"control rates"})
  \cup (IF PathKept(c, r, tol) THEN {} ELSE {"path constraints"})
  \cup (IF TermKept(c, r, tol) THEN {} ELSE {"terminal constraints"})
  \cup (IF LinksKept(c, r, tol) THEN {} ELSE {"links"})
  \cup (IF Moves(c, op, r, tol) THEN {} ELSE {"dynamics"})
===============================================================================
