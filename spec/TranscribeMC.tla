----------------------------- MODULE TranscribeMC -----------------------------
(* Design check of the transcription machine, exhaustively over small         *)
(* problems: the unknowns and rows it adds are complete and free of           *)
(* duplicates; a trajectory that solves the differential equations makes all  *)
(* dynamics, continuity and link rows vanish, and moving any one state value  *)
(* away from it does not; running costs within the reach of the quadrature    *)
(* are exact; scaling multiplies rows by positive factors and leaves the cost *)
(* alone.                                                                     *)
EXTENDS Ocp
CONSTANTS Meshes, MaxPhases, Intervals
QMeshes == { << 1 >>, << 2 >>, << 2, 3 >> }
QIntervals == { << -1, 1 >>, << 0, 1 >> }
TMeshes == { << 1 >>, << 2 >>, << 4 >>, << 2, 3 >>, << 1, 2 >>, << 3, 1, 2 >> }
TIntervals == { << -1, 1 >>, << 0, 1 >>, << -2, 3 >> }
VARIABLES cs, ph, stage, unk, rows, obj
vars == << cs, ph, stage, unk, rows, obj >>

\* One problem: x' = u + a with u(t) = 2t, x(t) = t^2 + a t; path u - 7 <= 0;
\* final x - x0 - 1; running cost u; end cost tf.  Phases cover [0,1], [1,2], ...
Params == [scheme : {"LGR", "LGL", "CGL"}, mesh : Meshes, np : 1..MaxPhases, iv : Intervals,
           adaptive : BOOLEAN, sc : {1, 2}, wide : BOOLEAN]
ParamSeq == LET RECURSIVE ToSeq(_)
                ToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN << x >> \o ToSeq(S \ {x})
            IN Force(ToSeq(Params))
Par(k) == ParamSeq[k]
Rep(n, v) == [i \in 1..n |-> v]
MkProb(q) == LET P == q.np IN
  [np |-> P, nx |-> 1, nu |-> 1, na |-> 1,
   scx |-> << IF q.sc = 1 THEN "1" ELSE "3" >>, scu |-> << IF q.sc = 1 THEN "1" ELSE "1/2" >>,
   sca |-> << IF q.sc = 1 THEN "1" ELSE "5" >>, sct |-> IF q.sc = 1 THEN "1" ELSE "1/4",
   dyn |-> Rep(P, << << << 1, << << 2, 1 >> >> >>, << 1, << << 4, 1 >> >> >> >> >>),
   path |-> Rep(P, << << << 1, << << 2, 1 >> >> >>, << -7, << >> >> >> >>),
   term |-> Rep(P, << << << 1, << << 1, 1 >> >> >>, << -1, << << 3, 1 >> >> >>, << -1, << >> >> >> >>),
   lagr |-> Rep(P, << << 1, << << 2, 1 >> >> >> >>),
   mayer |-> Rep(P, << << 1, << << 2, 1 >> >> >> >>),
   lbx |-> Rep(P, << -9 >>), ubx |-> Rep(P, << 9 >>), lbu |-> Rep(P, << "-inf" >>), ubu |-> Rep(P, << 8 >>),
   lba |-> Rep(P, << 0 >>), uba |-> Rep(P, << 1 >>), lbt0 |-> Rep(P, 0), ubt0 |-> Rep(P, 9),
   lbtf |-> Rep(P, 0), ubtf |-> Rep(P, 9), x00 |-> Rep(P, << 0 >>), xf0 |-> Rep(P, << 1 >>),
   u00 |-> Rep(P, << 0 >>), uf0 |-> Rep(P, << 2 >>), t00 |-> Rep(P, 0), tf0 |-> Rep(P, 1), a0 |-> Rep(P, << 0 >>),
   links |-> [l \in 1..(P - 1) |-> << l, l + 1 >>], lbe |-> Rep(P, << 0 >>), ube |-> Rep(P, << 0 >>),
   diffu |-> Rep(P, TRUE), midu |-> Rep(P, TRUE), ducont |-> Rep(P, TRUE), lbdu |-> Rep(P, -3), ubdu |-> Rep(P, 3),
   scheme |-> q.scheme, orders |-> q.mesh, lo |-> q.iv[1], hi |-> q.iv[2],
   adaptive |-> q.adaptive, lbh |-> Rep(P, "1/100"), ubh |-> Rep(P, 1), tolr |-> Rep(P, "1/1000"), midres |-> TRUE]
Probs == Force([k \in 1..Len(ParamSeq) |-> MkProb(ParamSeq[k])])
CaseProb(k) == Probs[k]
Widths(q) == LET k == Len(q.mesh) IN
  [s \in 1..k |-> IF q.wide /\ k > 1 THEN (IF s = 1 THEN RDiv(3, 4) ELSE RDiv(1, 4 * (k - 1))) ELSE RDiv(1, k)]
OpsIn == {s : s \in {"LGR", "LGL", "CGL"}}
Degs == UNION {{m[i] : i \in 1..Len(m)} : m \in Meshes}
OpTable == Force([s \in OpsIn |-> [d \in Degs |-> OpsOf(s, d)]])

\* The exact trajectory; bump: number of a state value (phase, node) moved by one, 0 = none
Par1 == "1/2"
Traj(q, c, bump) ==
  LET w == Widths(q)
      N == NN(c)
      nm == NodeMap(q.mesh)
      cum(s) == RSum([k \in 1..(s - 1) |-> w[k]])
      tau(n) == OpTable[q.scheme][q.mesh[nm[n][1]]].nodes[nm[n][2]]
      time(p, n) == Force(RAdd(p - 1, RAdd(cum(nm[n][1]), RMul(w[nm[n][1]], RDiv(RAdd(tau(n), 1), 2)))))
      x(p, n) == LET t == time(p, n) IN RAdd(RAdd(RMul(t, t), RMul(Par1, t)), IF bump = (p - 1) * N + n THEN 1 ELSE 0)
      phase(p) == [n \in 1..N |-> RMul(c.scx[1], x(p, n))] \o [n \in 1..N |-> RProd(<< c.scu[1], 2, time(p, n) >>)]
                  \o << RMul(c.sct, p - 1), RMul(c.sct, p), RMul(c.sca[1], Par1) >>
                  \o (IF c.adaptive THEN w ELSE << >>)
  IN Force(Cat([p \in 1..c.np |-> phase(p)]))
Ws(q) == Cat([p \in 1..q.np |-> Widths(q)])
CaseProbes(k) ==
  LET q == Par(k)  c == Probs[k] IN
  [b \in 1..(1 + c.np * NN(c)) |-> [z |-> Traj(q, c, b - 1), w |-> Ws(q)]]
ProbeTab == Force([k \in 1..Len(ParamSeq) |-> CaseProbes(k)])
ProbesOf(k) == ProbeTab[k]
T == INSTANCE Transcribe WITH Prob <- CaseProb, Probes <- ProbesOf, OpTab <- OpTable
Init == T!TInit(Len(ParamSeq))
Next == T!TNext
Spec == Init /\ [][Next]_vars

Tiny == RDiv(1, RPow(2, 50))
Zero(a) == RLe(RAbs(a), Tiny)
Done == stage = "done"
c == Probs[cs]
MinDeg == CHOOSE d \in {c.orders[s] : s \in 1..Len(c.orders)} : \A s \in 1..Len(c.orders) : d <= c.orders[s]
Ids == {<< rows[k].k, rows[k].p, rows[k].i, rows[k].n >> : k \in 1..Len(rows)}
NoDuplicates == /\ Cardinality(Ids) = Len(rows)
                /\ Cardinality({unk[k] : k \in 1..Len(unk)}) = Len(unk)
Counts == Done =>
  LET N == NN(c)  S == NSeg(c)  P == c.np  M == N - 1 IN
  /\ Len(unk) = P * PhaseLen(c)
  /\ Len(rows) = P * (N + N + 1 + N
                      + (IF c.adaptive THEN 1 + M + M + M ELSE M + (S - 1))) + 3 * (P - 1)
Kind(k) == {r \in 1..Len(rows) : rows[r].k = k}
Exact == MinDeg >= 2
\* residual rows vanish on the exact trajectory ...
SolutionFits == Done =>
  /\ Exact => \A r \in Kind("dyn") : Zero(rows[r].v[1])
  /\ Exact => \A r \in Kind("midres") : Zero(rows[r].v[1])
  /\ \A r \in Kind("rate") : Zero(RSub(rows[r].v[1], 2))
  /\ \A r \in Kind("cont") \cup Kind("linkx") \cup Kind("linku") \cup Kind("linkt") \cup Kind("sum") : Zero(rows[r].v[1])
\* ... and only there: every moved state value is noticed by a dynamics row of its phase
MovedIsNoticed == (Done /\ Exact) =>
  \A p \in 1..c.np : \A n \in 1..NN(c) : \E r \in Kind("dyn") :
     rows[r].p = p /\ ~Zero(rows[r].v[1 + (p - 1) * NN(c) + n])
LinkNotices == (Done /\ c.np > 1) =>
  \A l \in 1..(c.np - 1) : \E r \in Kind("linkx") : rows[r].p = l /\ ~Zero(rows[r].v[1 + l * NN(c) + 1])
\* cost: end times plus integral of 2t
CostExact == Done => Zero(RSub(obj[1].v, RAdd(RSum([p \in 1..c.np |-> p]), RMul(c.np, c.np))))
\* the scaled twin has the same cost and rows up to a positive factor
Twin == CHOOSE k \in 1..Len(ParamSeq) : ParamSeq[k] = [Par(cs) EXCEPT !.sc = 1]
PrOf(k) == ProbeTab[k]
Factor(k) == CASE k \in {"dyn", "midres", "midx", "linkx"} -> c.scx[1] [] k \in {"mid", "midu", "linku"} -> c.scu[1]
               [] k = "cont" -> c.scu[1] [] k = "linkt" -> c.sct [] OTHER -> 1
TT == INSTANCE Transcribe WITH Prob <- CaseProb, Probes <- ProbesOf, OpTab <- OpTable, cs <- Twin
TwinRows == Cat([p \in 1..c.np |->
     TT!DynRows(Probs[Twin], p) \o TT!PathRows(Probs[Twin], p) \o TT!RateRows(Probs[Twin], p)
     \o (IF c.adaptive THEN << >> ELSE TT!MidURows(Probs[Twin], p, "mid") \o TT!ContRows(Probs[Twin], p))
     \o TT!TermRows(Probs[Twin], p)
     \o (IF c.adaptive THEN TT!SumRow(Probs[Twin], p) \o TT!MidURows(Probs[Twin], p, "midu")
                            \o TT!MidXRows(Probs[Twin], p) \o TT!MidResRows(Probs[Twin], p) ELSE << >>)])
   \o TT!LinkRows(Probs[Twin])
ScaleInvariant == (Done /\ Par(cs).sc = 2) =>
  LET tr == TwinRows IN
  /\ Len(tr) = Len(rows)
  /\ \A r \in 1..Len(rows) : \A b \in {1, 2} :
       (rows[r].k = tr[r].k) /\ Zero(RSub(rows[r].v[b], RMul(Factor(rows[r].k), tr[r].v[b])))
=============================================================================
