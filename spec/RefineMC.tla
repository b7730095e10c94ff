------------------------------- MODULE RefineMC -------------------------------
(* Design check of the refinement rules: on every small input each            *)
(* construction gives a valid mesh and stands in its relation; iterating a    *)
(* rule keeps meshes valid.                                                   *)
EXTENDS Refine
CONSTANTS MaxSeg, MaxPts, Depth
VARIABLES rule, wid, res, step
vars == << rule, wid, res, step >>
Tol == "1/2"
Lo == "1/8"
Hi == "1/2"
Level == {0, 1, 3}
Equal(n) == Store([s \in 1..n |-> RDiv(1, n)])
Skew(n) == LET t == (n * (n + 1)) \div 2 IN Store([s \in 1..n |-> RDiv(s, t)])
Inputs(r, n) ==
  CASE r = "merge" -> [1..n -> {0, 1}]
    [] r = "area" -> UNION {{f \in [1..m -> Level] : \E i \in 1..m : f[i] # 0} : m \in 3..MaxPts}
    [] r \in {"slope", "limits"} -> UNION {[1..m -> {1, 2, 3}] : m \in 1..MaxPts}
Pts(f) == [k \in 1..Len(f) |-> << RDiv(2 * k - 1, 2 * Len(f)), R(f[k]) >>]
New(r, f, w) == CASE r = "merge" -> MergeSplit(f, w, Tol)
                  [] r = "area" -> Blend(EqualArea(f, Len(w)), w)
                  [] r = "slope" -> Slope(Pts(f), Len(w))
                  [] r = "limits" -> Clamp(Slope(Pts(f), Len(w)), Lo, Hi)
Init == /\ rule \in {"merge", "area", "slope", "limits"}
        /\ wid \in UNION {{Equal(n), Skew(n)} : n \in 2..MaxSeg}
        /\ res = << >> /\ step = 0
Refine1 == /\ step < Depth
           /\ res' \in Inputs(rule, Len(wid))
           /\ wid' = Store(New(rule, res', wid))
           /\ step' = step + 1 /\ UNCHANGED rule
Spec == Init /\ [][Refine1]_vars
StaysValid == ValidMesh(wid, Len(wid)) /\ Len(wid) <= MaxSeg
\* the relations hold for the constructions (checked on the transition)
Sound == [][LET f == res' IN
  CASE rule = "merge" -> MergeSplitRel(f, wid, Tol, wid')
    [] rule = "area" -> EqualAreaRel(f, Len(wid), UnBlend(wid', wid)) /\ EqualAreaRel(f, Len(wid), EqualArea(f, Len(wid)))
    [] rule = "slope" -> SlopeRel(Pts(f), Len(wid), wid', WTol)
    [] rule = "limits" -> SlopeStep(Pts(f), Len(wid), Lo, Hi, wid') = {}]_vars
\* ... and refuse other meshes: shifting any inner boundary by a little is noticed
Shift(w, k) == [s \in 1..Len(w) |-> IF s = k THEN RAdd(w[s], "1/1000") ELSE IF s = k + 1 THEN RSub(w[s], "1/1000") ELSE w[s]]
Sharp == [][LET f == res'  bad(k) == Shift(wid', k) IN
  \A k \in 1..(Len(wid) - 1) :
    CASE rule = "merge" -> ~MergeSplitRel(f, wid, Tol, bad(k))
      [] rule = "area" -> (\A i \in 1..Len(f) : f[i] # 0) => ~EqualAreaRel(f, Len(wid), Shift(EqualArea(f, Len(wid)), k))
      [] rule = "slope" -> Len(f) >= Len(wid) - 1 => ~SlopeRel(Pts(f), Len(wid), bad(k), WTol)
      [] rule = "limits" -> Determined(Pts(f), Len(wid)) => SlopeStep(Pts(f), Len(wid), Lo, Hi, bad(k)) # {}]_vars
=============================================================================
