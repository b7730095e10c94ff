------------------------------- MODULE HAdaptMC -------------------------------
(* Design check of iterative refinement: all histories of errors and refined  *)
(* widths drawn from small sets.                                              *)
EXTENDS HAdapt, TLC
CONSTANTS Limit, Errs, Meshes, MaxCalls
QErrs == {"1/2", "4", "5"}
QMeshes == {<< "1/2", "1/2" >>, << "51/100", "49/100" >>, << "1/4", "3/4" >>}
TErrs == {"1/2", "4", "5", "20"}
VARIABLES pc, sol, w, wsol, es, new, call, wused
vars == << pc, sol, w, wsol, es, new, call, wused >>
Tol == 1
Equal == << "1/2", "1/2" >>
\* sol: number of the answer held (0 none); wsol[k]: widths answer k was computed with
Init == /\ pc = "begin" /\ sol = 0 /\ w = Equal /\ wsol = << >> /\ es = << >> /\ new = Equal /\ call = 1
        /\ wused = Equal
Begin == /\ pc = "begin"
         /\ \/ /\ new' = Equal /\ pc' = "solve"              \* no start given
            \/ /\ sol > 0                                    \* start from the answer held: refine its widths
               /\ \E e \in Errs, m \in Meshes :
                    /\ new' = m
                    /\ pc' = IF RLt(e, Tol) THEN "done" ELSE "solve"
         /\ es' = << >> /\ UNCHANGED << sol, w, wsol, call, wused >>
Solve == /\ pc = "solve" /\ w' = new /\ wused' = new /\ sol' = Len(wsol) + 1 /\ wsol' = Append(wsol, new)
         /\ \E e \in Errs, m \in Meshes : es' = Append(es, e) /\ new' = m
         /\ pc' = "judge" /\ UNCHANGED call
Judge == /\ pc = "judge"
         /\ pc' = IF Reasons(es, w, new, Tol, Limit) # {} THEN "done" ELSE "solve"
         /\ UNCHANGED << sol, w, wsol, es, new, call, wused >>
Again == /\ pc = "done" /\ call < MaxCalls /\ call' = call + 1 /\ pc' = "begin"
         /\ UNCHANGED << sol, w, wsol, es, new, wused >>
Next == Begin \/ Solve \/ Judge \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SolvesAtMost == Len(es) <= Limit
WidthsOfTheAnswer == pc = "done" => w = wsol[sol]
ReturnsTheLast == pc = "done" => sol = Len(wsol)
NoSolveAfterGoodAnswer == \A k \in 1..(Len(es) - 1) : ~RLt(es[k], Tol)
NoEndlessStagnation == ~(\E k \in 5..(Len(es) - 1) : Stagnant(SubSeq(es, 1, k)))
Terminates == <>[](pc = "done")
=============================================================================
