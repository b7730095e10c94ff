------------------------------- MODULE Retrieve -------------------------------
(* What a solved problem answers when asked: node data, interpolated data,    *)
(* residual grids, defects of the dynamics, integrated states, curvature.     *)
(* c: problem (Ocp); op: operators op[scheme][degree] (OpsOf); d: PhaseData   *)
(* of the phase asked about.  Positions tau are in code units of [lo, hi].    *)
EXTENDS Ocp

\* --- node data, user units unless scaled
Unscale(v, s, scaled) == IF scaled THEN R(v) ELSE RDiv(v, s)
NodeX(c, d, scaled, n) == [i \in 1..c.nx |-> Unscale(d.X[i][n], c.scx[i], scaled)]
NodeU(c, d, scaled, n) == [i \in 1..c.nu |-> Unscale(d.U[i][n], c.scu[i], scaled)]
NodeTime(c, op, d, n) == LET o == NodeMap(c.orders)[n] IN TimeAt(d, o[1], op[c.scheme][c.orders[o[1]]].nodes[o[2]])
ParamA(c, d, scaled) == [i \in 1..c.na |-> IF scaled THEN RMul(d.a[i], c.sca[i]) ELSE d.a[i]]
OrigX(c, d, scaled) == [n \in 1..NN(c) |-> NodeX(c, d, scaled, n)]
OrigU(c, d, scaled) == [n \in 1..NN(c) |-> NodeU(c, d, scaled, n)]
OrigT(c, op, d) == OrigTimes(c, op, d)

\* --- positions inside segments: << segment, tau >> in order
Flat2(taus) == Cat([s \in 1..Len(taus) |-> [k \in 1..Len(taus[s]) |-> << s, taus[s][k] >>]])
\* evaluation rows (value, first, second derivative w.r.t. code tau) at a position
EvalRows(c, op, pt, k) ==
  LET row == DerRow(op[c.scheme][c.orders[pt[1]]].basis, Ref(c, pt[2]), k)
      jk == RPow(Jac(c), k)
  IN Force([j \in 1..Len(row) |-> RMul(jk, row[j])])
PointOps(c, op, taus, k) == LET f == Force(Flat2(taus)) IN
  Force([m \in 1..Len(f) |-> [s |-> f[m][1], tau |-> R(f[m][2]), row |-> EvalRows(c, op, f[m], k)]])
At(c, po, v) == RDot(po.row, SegVals(c, v, po.s))
AtX(c, d, po) == [i \in 1..c.nx |-> At(c, po, d.X[i])]
AtU(c, d, po) == [i \in 1..c.nu |-> At(c, po, d.U[i])]
AtT(c, d, po) == TimeAt(d, po.s, Ref(c, po.tau))

\* --- distribution of phase positions y (0..1) over segments: position of << s, tau >>
Cum(wid, s) == RSum([k \in 1..(s - 1) |-> wid[k]])
PhasePos(lo, hi, wid, s, tau) == RAdd(Cum(wid, s), RMul(wid[s], RDiv(RSub(tau, lo), RSub(hi, lo))))
\* the segment that holds y: ends of segments belong to the segment that ends there
Holder(wid, y) == CHOOSE s \in 1..Len(wid) :
   /\ s > 1 => RLt(Cum(wid, s), y)
   /\ RLe(y, Cum(wid, s + 1)) \/ s = Len(wid)
Distribute(lo, hi, wid, ys) ==
  [s \in 1..Len(wid) |->
     LET in == SelectSeq(ys, LAMBDA y : RLt(0, y) /\ Holder(wid, y) = s) IN
     [k \in 1..Len(in) |-> RAdd(lo, RMul(RSub(hi, lo), RDiv(RSub(in[k], Cum(wid, s)), wid[s])))]]

\* --- defect of the dynamics at a position, and the dynamics term alone (both scaled)
Dyn(c, p, d, po) ==
  LET a == Args(c, d, AtX(c, d, po), AtU(c, d, po), AtT(c, d, po)) IN
  Force([i \in 1..c.nx |-> RProd(<< d.h[po.s], c.scx[i], PolyVal(c.dyn[p][i], a) >>)])
Defect(c, p, d, po, pd) == LET f == Dyn(c, p, d, po) IN
  [i \in 1..c.nx |-> RSub(At(c, pd, d.X[i]), f[i])]

\* --- state integrated from the start of segment s along the dynamics interpolated
\*     through the positions ts of that segment; << value, magnitude >> per position, state
Integrated(c, p, op, d, s, ts) ==
  LET ps == Force([k \in 1..Len(ts) |-> Ref(c, ts[k])])
      b == Basis(ps)
      po == PointOps(c, op, [q \in 1..s |-> IF q = s THEN ts ELSE << >>], 0)
      f == Force([k \in 1..Len(ts) |-> Dyn(c, p, d, po[k])])
      W == Force([k \in 1..Len(ts) |-> RSeq(IntRow(b, -1, ps[k]))])
      x0(i) == d.X[i][FirstNode(c.orders, s)]
  IN Force([k \in 1..Len(ts) |-> [i \in 1..c.nx |->
        << RRnd(RAdd(x0(i), RDiv(RDot(W[k], [j \in 1..Len(ts) |-> f[j][i]]), Jac(c)))),
           RRnd(RDiv(RSum([j \in 1..Len(ts) |-> RAbs(RMul(W[k][j], f[j][i]))]), Jac(c))) >>]])
=============================================================================
