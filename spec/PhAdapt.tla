-------------------------------- MODULE PhAdapt -------------------------------
(* Refinement of degrees and widths.  A mesh is shared by all phases: degrees *)
(* per segment, widths per phase.  From one mesh to the next, segments within *)
(* tolerance are kept as they are; those out of tolerance are raised or       *)
(* divided.                                                                   *)
EXTENDS Rat, FiniteSets
PTol == "1/1000000000"
Close(a, b) == RLe(RAbs(RSub(a, b)), PTol)
\* o: degrees; w[p]: widths of phase p; lo, hi: limits of degrees; P: phases
ValidPh(o, w, lo, hi) ==
  /\ Len(o) > 0
  /\ \A s \in 1..Len(o) : lo <= o[s] /\ o[s] <= hi
  /\ \A p \in 1..Len(w) : Len(w[p]) = Len(o) /\ Close(RSum(w[p]), 1) /\ \A s \in 1..Len(o) : RLt(0, w[p][s])
CumW(w, s) == RSum([k \in 1..s |-> w[k]])
\* the number of new segments that lie in the first s old ones (0 if none ends there)
EndOf(w, nw, s) == IF s = 0 THEN 0
  ELSE LET S == {j \in 1..Len(nw) : Close(CumW(nw, j), CumW(w, s))} IN IF S = {} THEN -1 ELSE CHOOSE j \in S : TRUE
MeshStep(o, w, out, no, nw, hi) ==
  LET at(s) == EndOf(w[1], nw[1], s) IN
  \A s \in 1..Len(o) :
     LET a == at(s - 1)  b == at(s) IN
     /\ a >= 0 /\ b > a
     /\ s \notin out => b = a + 1
     /\ \A j \in (a + 1)..b :
          /\ IF s \in out THEN no[j] >= o[s] ELSE no[j] = o[s]
          /\ \A p \in 1..Len(w) : Close(nw[p][j], RDiv(w[p][s], b - a))
\* progress in a segment that is not divided: its degree rises unless at the limit
Raised1(o, w, out, no, nw, hi) == Len(no) = Len(o) => \A s \in out : no[s] > o[s] \/ o[s] >= hi
\* A segment of the raised mesh is divided where the solution is not smooth: where, in a phase in which it is
\* out of tolerance, the second derivative of a state grew by more than the factor thr since the solve before.
\* dd[p][s][i], nd[p][s][i]: largest second derivatives before and after.  Quotients of vanishing or nearly equal
\* numbers decide nothing (Tiny, Margin).
Tiny == "1/1000000"
Margin == "1/1000"
Grew(a, b, thr) == RLt(Tiny, a) /\ RLt(RMul(RAdd(thr, Margin), a), b)
Smooth(a, b, thr) == RLt(Tiny, a) /\ RLt(b, RMul(RSub(thr, Margin), a))
Divided(w, nw, s) == EndOf(w[1], nw[1], s) > EndOf(w[1], nw[1], s - 1) + 1
DivideRule(r, tol, dd, nd, thr, w, nw) == \A s \in 1..Len(w[1]) :
  LET ps == {p \in 1..Len(r) : RLt(tol, r[p][s])} IN
  /\ (\E p \in ps : \E i \in 1..Len(dd[p][s]) : Grew(dd[p][s][i], nd[p][s][i], thr)) => Divided(w, nw, s)
  /\ (\A p \in ps : \A i \in 1..Len(dd[p][s]) : Smooth(dd[p][s][i], nd[p][s][i], thr)) => ~Divided(w, nw, s)
Out(r, tol) == {s \in 1..Len(r[1]) : \E p \in 1..Len(r) : RLt(tol, r[p][s])}
=============================================================================
