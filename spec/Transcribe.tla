------------------------------ MODULE Transcribe ------------------------------
(* The transcription of an optimal control problem into a nonlinear program,  *)
(* as a machine that adds the unknowns, constraint rows and cost terms of one *)
(* phase after the other, then the links.  A row is                           *)
(*   [k: kind, p: phase, i: component, n: place, lo, hi, v: value per probe]  *)
EXTENDS Ocp
CONSTANT Prob(_)         \* the problem with a given number
CONSTANT Probes(_)       \* its probes: sequence of [z, w]
CONSTANT OpTab           \* operators: OpTab[scheme][degree]
VARIABLES cs, ph, stage, unk, rows, obj
tvars == << cs, ph, stage, unk, rows, obj >>

C == Prob(cs)
Op(c, s) == OpTab[c.scheme][c.orders[s]]
Pr == Probes(cs)
NPr == Len(Pr)
Data(c, p) == Force([q \in 1..NPr |-> PhaseData(c, Pr[q].z, Pr[q].w, p)])
NodeT(c, d, n) == LET o == NodeMap(c.orders)[n] IN TimeAt(d, o[1], Op(c, o[1]).nodes[o[2]])
NodeArgs(c, d, n) == Args(c, d, [i \in 1..c.nx |-> d.X[i][n]], [i \in 1..c.nu |-> d.U[i][n]], NodeT(c, d, n))
AllArgs(c, ds) == Force([q \in 1..NPr |-> [n \in 1..NN(c) |-> NodeArgs(c, ds[q], n)]])

Row(k, p, i, n, lo, hi, V(_)) ==
  [k |-> k, p |-> p, i |-> i, n |-> n, lo |-> R(lo), hi |-> R(hi), v |-> [q \in 1..NPr |-> RRnd(V(q))]]
AnyFinite(c, lb, ub) == \E i \in 1..Len(lb) : RLt("-inf", lb[i]) \/ RLt(ub[i], "inf")

\* --- C02: D X - h scx f(x,u,t,a), one row per state and node
DynRows(c, p) ==
  LET ds == Data(c, p)
      ar == AllArgs(c, ds)
      nm == NodeMap(c.orders)
      Sv == Force([q \in 1..NPr |-> [i \in 1..c.nx |-> [s \in 1..NSeg(c) |-> SegVals(c, ds[q].X[i], s)]]])
  IN Grid(c.nx, NN(c), LAMBDA i, n :
       LET s == nm[n][1] IN
       Row("dyn", p, i, n, 0, 0, LAMBDA q :
          RSub(RMul(Jac(c), RDot(Op(c, s).D[nm[n][2]], Sv[q][i][s])),
               RProd(<< ds[q].h[s], c.scx[i], PolyVal(c.dyn[p][i], ar[q][n]) >>))))
\* --- C03: each component at each node
PathRows(c, p) ==
  LET ds == Data(c, p)  ar == AllArgs(c, ds) IN
  Grid(Len(c.path[p]), NN(c), LAMBDA i, n :
     Row("path", p, i, n, "-inf", 0, LAMBDA q : PolyVal(c.path[p][i], ar[q][n])))
\* --- C04
TermRows(c, p) ==
  LET ds == Data(c, p)  ea == Force([q \in 1..NPr |-> EndArgs(c, ds[q])]) IN
  [i \in 1..Len(c.term[p]) |-> Row("term", p, i, 1, 0, 0, LAMBDA q : PolyVal(c.term[p][i], ea[q]))]
\* --- C07: time derivative of the unscaled control
RateRows(c, p) ==
  IF ~c.diffu[p] THEN << >> ELSE
  LET ds == Data(c, p)  nm == NodeMap(c.orders) IN
  Grid(c.nu, NN(c), LAMBDA i, n :
     LET s == nm[n][1] IN
     Row("rate", p, i, n, c.lbdu[p], c.ubdu[p], LAMBDA q :
        RDiv(RMul(Jac(c), RDot(Op(c, s).D[nm[n][2]], SegVals(c, ds[q].U[i], s))), RMul(ds[q].h[s], c.scu[i]))))
\* places of the mid points: << segment, index >>
MidPlaces(c) == Cat([s \in 1..NSeg(c) |-> [k \in 1..c.orders[s] |-> << s, k >>]])
MidRows(c, p, kind, ncomp, vals(_, _), lb, ub, sc) ==
  LET mp == Force(MidPlaces(c)) IN
  Grid(ncomp, Len(mp), LAMBDA i, m :
     Row(kind, p, i, m, RMul(lb[i], sc[i]), RMul(ub[i], sc[i]), LAMBDA q :
        RDot(Op(c, mp[m][1]).MI[mp[m][2]], SegVals(c, vals(q, i), mp[m][1]))))
MidURows(c, p, kind) ==
  LET ds == Data(c, p) IN
  IF AnyFinite(c, c.lbu[p], c.ubu[p])
  THEN MidRows(c, p, kind, c.nu, LAMBDA q, i : ds[q].U[i], c.lbu[p], c.ubu[p], c.scu) ELSE << >>
MidXRows(c, p) ==
  LET ds == Data(c, p) IN
  IF AnyFinite(c, c.lbx[p], c.ubx[p])
  THEN MidRows(c, p, "midx", c.nx, LAMBDA q, i : ds[q].X[i], c.lbx[p], c.ubx[p], c.scx) ELSE << >>
ContRows(c, p) ==
  IF ~c.ducont[p] \/ NSeg(c) = 1 THEN << >> ELSE
  LET ds == Data(c, p) IN
  Grid(c.nu, NSeg(c) - 1, LAMBDA i, s :
     Row("cont", p, i, s, 0, 0, LAMBDA q :
        RMul(Jac(c), RSub(RDot(Op(c, s).D[c.orders[s] + 1], SegVals(c, ds[q].U[i], s)),
                          RMul(RDot(Op(c, s + 1).D[1], SegVals(c, ds[q].U[i], s + 1)),
                               RDiv(ds[q].wid[s], ds[q].wid[s + 1]))))))
\* --- C21
SumRow(c, p) ==
  LET ds == Data(c, p) IN << Row("sum", p, 1, 1, 0, 0, LAMBDA q : RSub(RSum(ds[q].wid), 1)) >>
MidResRows(c, p) ==
  IF ~c.midres THEN << >> ELSE
  LET ds == Data(c, p)
      MidArgs(q, s, k) ==
        LET row == Op(c, s).MI[k] IN
        Args(c, ds[q], [i \in 1..c.nx |-> RDot(row, SegVals(c, ds[q].X[i], s))],
             [i \in 1..c.nu |-> RDot(row, SegVals(c, ds[q].U[i], s))], TimeAt(ds[q], s, Op(c, s).mids[k]))
      ar == Force([q \in 1..NPr |-> [s \in 1..NSeg(c) |-> [k \in 1..c.orders[s] |-> MidArgs(q, s, k)]]])
  IN Cat([s \in 1..NSeg(c) |-> Grid(c.nx, c.orders[s], LAMBDA i, k :
       Row("midres", p, i, << s, k >>, RNeg(c.tolr[p]), c.tolr[p], LAMBDA q :
          RMul(ds[q].wid[s],
               RSub(RMul(Jac(c), RDot(Op(c, s).MD[k], SegVals(c, ds[q].X[i], s))),
                    RProd(<< ds[q].h[s], c.scx[i], PolyVal(c.dyn[p][i], ar[q][s][k]) >>)))))])
\* --- C06
LinkRows(c) ==
  IF c.np < 2 THEN << >> ELSE
  LET all == Force([p \in 1..c.np |-> Data(c, p)])
      L == c.links  N == NN(c) IN
     Grid(Len(L), c.nx, LAMBDA l, i :
        Row("linkx", l, i, 1, RMul(c.lbe[l][i], c.scx[i]), RMul(c.ube[l][i], c.scx[i]), LAMBDA q :
           RSub(all[L[l][2]][q].X[i][1], all[L[l][1]][q].X[i][N])))
  \o Grid(Len(L), c.nu, LAMBDA l, i :
        Row("linku", l, i, 1, 0, 0, LAMBDA q : RSub(all[L[l][2]][q].U[i][1], all[L[l][1]][q].U[i][N])))
  \o [l \in 1..Len(L) |->
        Row("linkt", l, 1, 1, 0, 0, LAMBDA q : RMul(c.sct, RSub(all[L[l][2]][q].t0, all[L[l][1]][q].tf)))]
\* --- C05 (and the Mayer part of C04): value and magnitude of the cost of a phase per probe
Mayer(c, p, q) == LET d == PhaseData(c, Pr[q].z, Pr[q].w, p) IN PolyVal(c.mayer[p], EndArgs(c, d))
Lagrange(c, p, q) ==
  LET d == PhaseData(c, Pr[q].z, Pr[q].w, p)
      g == Force([n \in 1..NN(c) |-> PolyVal(c.lagr[p], NodeArgs(c, d, n))])
      seg(s) == RMul(RDiv(d.h[s], Jac(c)), RDot(Op(c, s).W, SegVals(c, g, s)))
      mag(s) == RMul(RDiv(RAbs(d.h[s]), Jac(c)),
                     RDot(Op(c, s).W, LET v == SegVals(c, g, s) IN [k \in 1..Len(v) |-> RAbs(v[k])]))
  IN << RRnd(RSum([s \in 1..NSeg(c) |-> seg(s)])), RRnd(RSum([s \in 1..NSeg(c) |-> RAbs(mag(s))])) >>
AddCost(o, c, p) == Force([q \in 1..NPr |->
  LET m == Mayer(c, p, q)  l == Lagrange(c, p, q) IN
  [v |-> RSum(<< o[q].v, m, l[1] >>), mag |-> RSum(<< o[q].mag, RAbs(m), l[2] >>)]])

\* --- the machine
TInit(n) == /\ cs \in 1..n
            /\ ph = 1 /\ stage = "unknowns" /\ unk = << >> /\ rows = << >>
            /\ obj = << >>
At(s) == stage = s
Goto(s) == stage' = s
AddUnknowns == /\ At("unknowns") /\ Goto("dynamics")
               /\ unk' = unk \o PhaseUnknowns(C, ph)
               /\ obj' = IF ph = 1 THEN [q \in 1..NPr |-> [v |-> R(0), mag |-> R(1)]] ELSE obj
               /\ UNCHANGED << cs, ph, rows >>
AddRows(from, to, rs) == /\ At(from) /\ Goto(to)
                         /\ rows' = rows \o rs
                         /\ UNCHANGED << cs, ph, unk, obj >>
AddDynamics == AddRows("dynamics", "path", DynRows(C, ph))
AddPath == AddRows("path", "rate", PathRows(C, ph))
AddRate == AddRows("rate", IF C.adaptive THEN "terminal" ELSE "mid", RateRows(C, ph))
AddMid == AddRows("mid", "cont", IF C.midu[ph] THEN MidURows(C, ph, "mid") ELSE << >>)
AddCont == AddRows("cont", "terminal", ContRows(C, ph))
AddTerminal == AddRows("terminal", IF C.adaptive THEN "widths" ELSE "cost", TermRows(C, ph))
AddWidths == AddRows("widths", "cost",
               SumRow(C, ph) \o MidURows(C, ph, "midu") \o MidXRows(C, ph) \o MidResRows(C, ph))
AddObjective == /\ At("cost")
                /\ obj' = AddCost(obj, C, ph)
                /\ IF ph = C.np THEN Goto("links") /\ UNCHANGED ph ELSE Goto("unknowns") /\ ph' = ph + 1
                /\ UNCHANGED << cs, unk, rows >>
AddLinks == AddRows("links", "done", LinkRows(C))
TNext == AddUnknowns \/ AddDynamics \/ AddPath \/ AddRate \/ AddMid \/ AddCont \/ AddTerminal \/ AddWidths
         \/ AddObjective \/ AddLinks

\* --- which property a row belongs to
Owner(kind) == CASE kind = "dyn" -> {"C02"} [] kind = "path" -> {"C03"} [] kind = "term" -> {"C04"}
                 [] kind \in {"rate", "mid", "cont"} -> {"C07"} [] kind \in {"linkx", "linku", "linkt"} -> {"C06"}
                 [] kind = "midu" -> {"C07", "C21"} [] kind \in {"sum", "midx", "midres"} -> {"C21"}
=============================================================================
