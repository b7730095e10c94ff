------------------------------- MODULE PhAdaptMC ------------------------------
(* Design check: every history of out-of-tolerance sets from small meshes.    *)
EXTENDS PhAdapt, TLC, SequencesExt
CONSTANTS Limit, MinDeg, MaxDeg, MaxSeg
VARIABLES pc, o, w, out, solves, iter, prev
vars == << pc, o, w, out, solves, iter, prev >>
Starts == { << 1 >>, << 2 >>, << 3, 1 >> }
EqualW(n) == Store([s \in 1..n |-> RDiv(1, n)])
Init == /\ pc = "solve" /\ solves = 0 /\ iter = 0 /\ out = {}
        /\ o \in Starts /\ w = << EqualW(Len(o)), EqualW(Len(o)) >>
        /\ prev = << o, w, {} >>
Solve(from, to) == /\ pc = from /\ solves' = solves + 1
                   /\ out' \in SUBSET (1..Len(o))
                   /\ pc' = to /\ UNCHANGED << o, w, iter, prev >>
First == Solve("solve", "raise")
Raise == /\ pc = "raise"
         /\ IF out = {} THEN pc' = "done" /\ UNCHANGED << o, w, prev >>
            ELSE /\ o' = [s \in 1..Len(o) |-> IF s \in out THEN (IF o[s] + 3 > MaxDeg THEN MaxDeg ELSE o[s] + 3) ELSE o[s]]
                 /\ prev' = << o, w, out >> /\ pc' = "fine" /\ UNCHANGED w
         /\ UNCHANGED << out, solves, iter >>
Fine == Solve("fine", "split")
\* any of the segments out of tolerance may be divided
Divide(f(_), rough) == Force(FlattenSeq([s \in 1..Len(o) |-> IF s \in rough THEN << f(s), f(s) >> ELSE << f(s) >>]))
Split == /\ pc = "split"
         /\ IF out = {} \/ iter + 1 = Limit THEN pc' = "done" /\ UNCHANGED << o, w, iter, prev >>
            ELSE \E rough \in SUBSET out :
                   /\ Len(o) + Cardinality(rough) <= MaxSeg
                   /\ o' = Divide(LAMBDA s : o[s], rough)
                   /\ w' = Store([p \in 1..2 |-> Divide(LAMBDA s : IF s \in rough THEN RDiv(w[p][s], 2) ELSE w[p][s], rough)])
                   /\ prev' = << o, w, out >> /\ iter' = iter + 1 /\ pc' = "solve"
         /\ UNCHANGED << out, solves >>
Next == First \/ Raise \/ Fine \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
MeshValid == ValidPh(o, w, MinDeg, MaxDeg)
AtMostTwicePerIteration == solves <= 2 * Limit
StopsExactlyWhenGood == pc = "done" => (out = {} \/ (iter + 1 = Limit /\ solves = 2 * Limit))
Steps == MeshStep(prev[1], prev[2], IF prev[3] = {} THEN {} ELSE prev[3], o, w, MaxDeg)
Terminates == <>(pc = "done")
=============================================================================
