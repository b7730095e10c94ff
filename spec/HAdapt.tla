-------------------------------- MODULE HAdapt --------------------------------
(* Iterative width refinement: decisions and machine.  The machine solves on  *)
(* the widths in force, measures the error of the answer, refines, and stops  *)
(* when the answer is good enough, when refining would not move the widths,   *)
(* when the error stagnates, or at the limit; on stopping, the widths in      *)
(* force are those of the answer it returns.                                  *)
EXTENDS Rat, FiniteSets
Bad(e) == e = "none"
Within(e, mintol) == ~Bad(e) /\ RLt(e, mintol)
Mean4(es) == RDiv(RSum([k \in 1..4 |-> es[Len(es) - 4 + k]]), 4)
Stagnant(es) == Len(es) > 4 /\ RLt(RAbs(RSub(es[Len(es)], Mean4(es))), RMul("1/20", RAbs(es[Len(es)])))
SmallChange(new, old) == \A s \in 1..Len(new) : RLe(RAbs(RSub(new[s], old[s])), RMul("1/20", new[s]))
\* after the answers with errors es, the last on widths old, refined widths new
Reasons(es, old, new, mintol, limit) ==
     (IF Within(es[Len(es)], mintol) THEN {"within tolerance"} ELSE {})
\cup (IF Len(es) >= limit THEN {"limit"} ELSE {})
\cup (IF Len(es) > 4 /\ (\A k \in 1..Len(es) : ~Bad(es[k])) /\ Stagnant(es) THEN {"stagnation"} ELSE {})
\cup (IF SmallChange(new, old) THEN {"widths settled"} ELSE {})
=============================================================================
