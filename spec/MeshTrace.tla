------------------------------- MODULE MeshTrace ------------------------------
(* Conformance of the refinement rules: inputs and results recorded from the  *)
(* real functions, alone and inside the iteratively refining optimiser.       *)
EXTENDS Steps
Cases == JsonDeserialize("cases.json")
VARIABLES cs, k, bad
vars == << cs, k, bad >>
OpsIn == UNION {{<< Cases[n].c.scheme, Cases[n].c.orders[s] >> : s \in 1..Len(Cases[n].c.orders)} : n \in {i \in 1..Len(Cases) : "c" \in DOMAIN Cases[i]}}
Op == Force([s \in {o[1] : o \in OpsIn} |-> [dg \in {o[2] : o \in {x \in OpsIn : x[1] = s}} |-> OpsOf(s, dg)]])
Raised == "raised" \in DOMAIN Cases[cs]
Clause(name, ok) == IF ok THEN {} ELSE {name}
\* candidates in the order of preference: earlier ones count as steeper
Ranked(q) == [j \in 1..Len(q.times) |-> << RDiv(RSub(q.times[j], q.t0), RSub(q.tf, q.t0)), R(Len(q.times) - j + 1) >>]
Norm(row) == RSqrt(RSum([i \in 1..Len(row) |-> RMul(row[i], row[i])]))
Maxima(q) ==
  LET n == Len(q.t)
      sl == Force([j \in 1..n |-> Norm(q.du[j])])
      in == {j \in 2..(n - 1) : RLe(q.threshold, sl[j])}
      which(y) == {j \in in : Near(q.t[j], y, WTol)} IN
  Clause("C19.steepest times",
     /\ Len(q.new) = Cardinality(in)
     /\ \A i \in 1..Len(q.new) : which(q.new[i]) # {}
     /\ \A j \in in : \E i \in 1..Len(q.new) : Near(q.t[j], q.new[i], WTol)
     /\ \A i \in 1..(Len(q.new) - 1) : \E a \in which(q.new[i]) : \E b \in which(q.new[i + 1]) :
          RLe(sl[b], RMul(sl[a], "1000001/1000000")))
Pre(S) == {"C19." \o x : x \in S}
Session(q) ==
  LET c == Cases[cs].c IN
  Pre(Step(c, Op, q.z, q.r, q.method, q.sub, q.old, q.new))
  \cup (IF q.fn # "widths" THEN {}
        ELSE Clause("C19.largest residual", IF NoStep(c, q.method) THEN q.err = "none"
                                            ELSE q.err # "none" /\ RNear(q.err, MaxError(q.r), "1/1000000")))
Judge(q) ==
  IF "raised" \in DOMAIN q THEN {"C19.raised: " \o q.raised}
  ELSE CASE q.fn = "merge" -> Pre(IF ~ValidMesh(q.new, Len(q.old)) THEN {"valid mesh"} ELSE {})
                              \cup Clause("C19.merge and split", MergeSplitRel(q.max, q.old, q.tol, q.new))
         [] q.fn = "area" -> Pre(IF ~ValidMesh(q.new, q.n) THEN {"valid mesh"} ELSE {})
                              \cup Clause("C19.equal area", EqualAreaRel(q.res, q.n, q.new))
         [] q.fn = "times" -> Pre(IF ~ValidMesh(q.new, q.n) THEN {"valid mesh"} ELSE {})
                              \cup Clause("C19.boundaries at the given times", SlopeRel(Ranked(q), q.n, q.new, WTol))
         [] q.fn = "max" -> Maxima(q)
         [] q.fn = "refine" -> LET n == Len(q.old) IN
               Pre(IF ~ValidMesh(q.new, n) THEN {"valid mesh"} ELSE {})
               \cup (CASE q.method = "merge_split" -> Clause("C19.merge and split", MergeSplitRel([s \in 1..n |-> SegMax(q.r[s])], q.old, q.tol, q.new))
                       [] q.method = "equal_area" -> Clause("C19.equal area", EqualAreaRel(Sizes(q.r), n, q.new)))
         [] q.fn = "widths" -> Session(q)
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
Init == cs \in 1..Len(Cases) /\ k = 1 /\ bad = {}
Ask == /\ ~Raised /\ k \in 1..Len(Cases[cs].calls)
       /\ bad' = bad \cup Judge(Cases[cs].calls[k])
       /\ k' = k + 1 /\ UNCHANGED cs
Finish == /\ (Raised /\ k = 1) \/ (~Raised /\ k = Len(Cases[cs].calls) + 1)
          /\ k' = 0 /\ UNCHANGED cs
          /\ bad' = IF Raised THEN {"C19.raised: " \o Cases[cs].raised} ELSE bad
          /\ Verdict(bad')
Spec == Init /\ [][Ask \/ Finish]_vars
=============================================================================
