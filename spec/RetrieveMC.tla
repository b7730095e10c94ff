------------------------------ MODULE RetrieveMC ------------------------------
(* Design check of retrieval, exhaustively over small sessions.  A session is *)
(* a solved problem with a known solution (x' = u + a, u = 2t, x = t^2 + a t, *)
(* phases covering [0,1], [1,2]) and any sequence of questions up to a given  *)
(* length; the answers must be those of the known solution, whatever mesh,    *)
(* scheme, interval, widths, scaling and residual points.                     *)
EXTENDS Retrieve
CONSTANTS Meshes, Intervals, Cells, MaxAsk, Small
QMeshes == { << 2, 3 >>, << 1, 2, 2 >> }
QIntervals == { << -1, 1 >>, << 0, 1 >> }
TMeshes == { << 1 >>, << 3 >>, << 2, 3 >>, << 3, 2 >>, << 1, 2, 2 >>, << 2, 4, 1, 3 >> }
TIntervals == { << -1, 1 >>, << 0, 1 >>, << -2, 3 >> }
VARIABLES q, log
vars == << q, log >>
Schemes3 == {"LGR", "LGL", "CGL"}
Degs == UNION {{m[i] : i \in 1..Len(m)} : m \in Meshes}
Op == Force([s \in Schemes3 |-> [d \in Degs |-> OpsOf(s, d)]])
Sessions == [scheme : Schemes3, mesh : Meshes, iv : Intervals, wide : BOOLEAN, sc : BOOLEAN, adaptive : BOOLEAN]
Par1 == "1/2"
Wid(m, wide) == LET k == Len(m) IN
  [s \in 1..k |-> IF wide /\ k > 1 THEN (IF s = 2 THEN RDiv(5, 8) ELSE RDiv(3, 8 * (k - 1))) ELSE RDiv(1, k)]
Prob(s) ==
  [np |-> 2, nx |-> 1, nu |-> 1, na |-> 1, scx |-> << IF s.sc THEN 3 ELSE 1 >>, scu |-> << IF s.sc THEN "1/2" ELSE 1 >>,
   sca |-> << IF s.sc THEN 5 ELSE 1 >>, sct |-> IF s.sc THEN "1/4" ELSE 1,
   dyn |-> [p \in 1..2 |-> << << << 1, << << 2, 1 >> >> >>, << 1, << << 4, 1 >> >> >> >> >>],
   scheme |-> s.scheme, orders |-> s.mesh, lo |-> s.iv[1], hi |-> s.iv[2], adaptive |-> s.adaptive]
X(t) == RAdd(RMul(t, t), RMul(Par1, t))
\* the solution vector; bump: node of phase 2 whose state is moved by one (0: none)
Z(s, c, bump) ==
  LET w == Wid(s.mesh, s.wide)
      nm == NodeMap(s.mesh)
      tau(n) == Op[s.scheme][s.mesh[nm[n][1]]].nodes[nm[n][2]]
      cum(k) == RSum([j \in 1..(k - 1) |-> w[j]])
      time(p, n) == Force(RAdd(p - 1, RAdd(cum(nm[n][1]), RMul(w[nm[n][1]], RDiv(RAdd(tau(n), 1), 2)))))
      phase(p) == [n \in 1..NN(c) |-> RMul(c.scx[1], RAdd(X(time(p, n)), IF p = 2 /\ n = bump THEN 1 ELSE 0))]
                  \o [n \in 1..NN(c) |-> RProd(<< c.scu[1], 2, time(p, n) >>)]
                  \o << RMul(c.sct, p - 1), RMul(c.sct, p), RMul(c.sca[1], Par1) >> \o (IF c.adaptive THEN w ELSE << >>)
  IN Force(phase(1) \o phase(2))
Dt(s, p, bump) == LET c == Prob(s)  w == Wid(s.mesh, s.wide) IN PhaseData(c, Z(s, c, bump), w \o w, p)
\* residual points: per segment the eighths chosen by the question
Points(c, sub) == [s \in 1..NSeg(c) |->
  LET k == SelectSeq([j \in 1..(Cells + 1) |-> j - 1], LAMBDA j : j \in (IF s % 2 = 1 THEN sub ELSE {1, 3} \cup sub)) IN
  [i \in 1..Len(k) |-> RAdd(c.lo, RMul(RSub(c.hi, c.lo), RDiv(k[i], Cells)))]]
Questions == [op : {"orig", "interp", "grid", "defect", "integral", "curvature"}, p : {1, 2}, sub : SUBSET (0..Cells)]
Interesting(x) == /\ (x.op = "orig" => x.sub = {})
                  /\ (x.op \in {"interp", "defect", "integral", "curvature"} => Cardinality(x.sub) \in 2..3)
                  /\ (Small /\ x.op # "grid") => x.sub \in {{}, {0, 2}, {1, 3, 4}}
Init == q \in Sessions /\ (Small => q.sc = q.adaptive /\ q.wide) /\ log = << >>
Ask == /\ Len(log) < MaxAsk
       /\ \E x \in {y \in Questions : Interesting(y)} : log' = Append(log, x)
       /\ UNCHANGED q
Next == Ask
Spec == Init /\ [][Next]_vars

Tiny == RDiv(1, RPow(2, 40))
Same(a, b) == RLe(RAbs(RSub(a, b)), Tiny)
Asked == Len(log) > 0
c == Prob(q)
x == log[Len(log)]
\* segments of degree one cannot carry the quadratic
Fits == \A s \in 1..NSeg(c) : c.orders[s] >= 2
w == Wid(q.mesh, q.wide)
NodesAreTheSolution == (Asked /\ x.op = "orig") =>
  LET d == Dt(q, x.p, 0)
      t == OrigT(c, Op, d)  ux == OrigX(c, d, FALSE)  sx == OrigX(c, d, TRUE)  u == OrigU(c, d, FALSE) IN
  /\ Len(t) = NN(c) /\ Same(t[1], x.p - 1) /\ Same(t[NN(c)], x.p)
  /\ \A n \in 1..(NN(c) - 1) : RLt(t[n], t[n + 1])
  /\ \A s \in 1..NSeg(c) : Same(t[FirstNode(c.orders, s)], RAdd(x.p - 1, Cum(w, s)))
  /\ \A n \in 1..NN(c) : Same(ux[n][1], X(t[n])) /\ Same(u[n][1], RMul(2, t[n])) /\ Same(sx[n][1], RMul(c.scx[1], X(t[n])))
  /\ Same(ParamA(c, d, FALSE)[1], Par1) /\ Same(ParamA(c, d, TRUE)[1], RMul(c.sca[1], Par1))
InterpolationIsTheSolution == (Asked /\ x.op = "interp") =>
  LET d == Dt(q, x.p, 0)  po == PointOps(c, Op, Points(c, x.sub), 0) IN
  /\ \A m \in 1..Len(po) : Same(AtU(c, d, po[m])[1], RMul(c.scu[1], RMul(2, AtT(c, d, po[m]))))
  /\ Fits => \A m \in 1..Len(po) : Same(AtX(c, d, po[m])[1], RMul(c.scx[1], X(AtT(c, d, po[m]))))
  \* at the nodes the interpolation is the node data, whatever the degree
  /\ LET nt == [s \in 1..NSeg(c) |-> LET ns == Op[c.scheme][c.orders[s]].nodes IN
                   [k \in 1..Len(ns) |-> RAdd(c.lo, RMul(RSub(c.hi, c.lo), RDiv(RAdd(ns[k], 1), 2)))]]
         at == PointOps(c, Op, nt, 0) IN
     \A m \in 1..Len(at) : LET k == m - SumTo(c.orders, at[m].s - 1) - (at[m].s - 1) IN
        Same(AtX(c, d, at[m])[1], d.X[1][FirstNode(c.orders, at[m].s) + k - 1])
\* positions are neither lost nor repeated nor moved; a boundary belongs to the segment before it
DistributionKeepsPositions == (Asked /\ x.op = "grid") =>
  LET k == SelectSeq([j \in 1..(Cells + 1) |-> j - 1], LAMBDA j : j \in x.sub)
      ys == [i \in 1..Len(k) |-> RDiv(k[i], Cells)]
      g == Force(Distribute(c.lo, c.hi, w, ys))
      f == Force(Flat2(g))
      in == SelectSeq(ys, LAMBDA y : RLt(0, y)) IN
  /\ Len(g) = NSeg(c) /\ Len(f) = Len(in)
  /\ \A i \in 1..Len(f) : Same(PhasePos(c.lo, c.hi, w, f[i][1], f[i][2]), in[i])
  /\ \A i \in 1..Len(f) : RLt(c.lo, f[i][2]) /\ RLe(f[i][2], c.hi)
\* defects vanish on the solution and notice every moved node of their phase
DefectsAreTrue == (Asked /\ x.op = "defect" /\ Fits) =>
  LET d == Dt(q, x.p, 0)  pt == Points(c, x.sub)
      po == PointOps(c, Op, pt, 0)  pd == PointOps(c, Op, pt, 1) IN
  /\ \A m \in 1..Len(po) : Same(Defect(c, x.p, d, po[m], pd[m])[1], 0)
  /\ \A n \in 1..NN(c) : LET b == Dt(q, 2, n) IN \E m \in 1..Len(po) :
        ~Same(Defect(c, 2, b, po[m], pd[m])[1], 0)
IntegralsAreTrue == (Asked /\ x.op = "integral" /\ Fits) =>
  LET d == Dt(q, x.p, 0)  pt == Points(c, x.sub) IN
  \A s \in 1..NSeg(c) :
     LET v == Integrated(c, x.p, Op, d, s, pt[s])
         po == SelectSeq(PointOps(c, Op, pt, 0), LAMBDA y : y.s = s) IN
     \A m \in 1..Len(v) : Same(v[m][1][1], AtX(c, d, po[m])[1])
\* x'' = 2 in physical time
CurvatureIsTrue == (Asked /\ x.op = "curvature" /\ Fits) =>
  LET d == Dt(q, x.p, 0)  po == PointOps(c, Op, Points(c, x.sub), 2) IN
  \A m \in 1..Len(po) : /\ Same(AtX(c, d, po[m])[1], RProd(<< c.scx[1], 2, d.h[po[m].s], d.h[po[m].s] >>))
                        /\ Same(AtU(c, d, po[m])[1], 0)
=============================================================================
