------------------------------ MODULE HAdaptTrace -----------------------------
(* Conformance of iterative width refinement: histories of solver calls and   *)
(* answers recorded from the real optimiser, walked through by the machine of *)
(* HAdapt.  A run: start ("none" or an answer with its residuals on the       *)
(* widths then in force), method, limit, calls (widths used, start values,    *)
(* answer, residuals), refined widths asked for after the run, the answer     *)
(* returned and the node times it is post-processed with.                     *)
EXTENDS Steps, HAdapt
Cases == JsonDeserialize("cases.json")
VARIABLES cs, run, k, pc, w, es, bad
vars == << cs, run, k, pc, w, es, bad >>
OpsIn == UNION {{<< Cases[n].c.scheme, Cases[n].c.orders[s] >> : s \in 1..Len(Cases[n].c.orders)} : n \in 1..Len(Cases)}
Op == Force([s \in {o[1] : o \in OpsIn} |-> [dg \in {o[2] : o \in {x \in OpsIn : x[1] = s}} |-> OpsOf(s, dg)]])
Raised == "raised" \in DOMAIN Cases[cs]
C == Cases[cs].c
Runs20 == Cases[cs].runs
Q == Runs20[run]
Calls == Q.calls
MinTol == LET t == [p \in 1..C.np |-> RNeg(C.tolr[p])] IN RNeg(RMaxOf(t))
Clause(name, ok) == IF ok THEN {} ELSE {name}
Pre(S) == {"C20.widths not refined by the rule: " \o x : x \in S}
Err(r) == IF NoStep(C, Q.method) THEN "none" ELSE Store(MaxError(r))
Init == /\ cs \in 1..Len(Cases) /\ run = 1 /\ k = 0 /\ pc = "begin"
        /\ w = << >> /\ es = << >> /\ bad = {}
\* start of a run: equal widths, or the widths refined from the given answer
First == IF Len(Calls) > 0 THEN Calls[1].p ELSE << >>
Begin == /\ ~Raised /\ pc = "begin"
         /\ LET inforce == IF w = << >> THEN Equal(C) ELSE w
                none == Q.start = "none"
                good == ~none /\ Within(Err(Q.r0), MinTol) IN
            /\ bad' = bad \cup
                 (IF "raised" \in DOMAIN Q THEN {"C20.raised: " \o Q.raised}
                  ELSE IF none THEN Clause("C20.first solve on equal widths", Len(Calls) > 0 /\ SameMesh(First, Equal(C)))
                  ELSE IF good THEN Clause("C20.a start within tolerance needs no solve", Len(Calls) = 0)
                  ELSE IF Len(Calls) = 0 THEN {"C20.no solve although the start is out of tolerance"}
                  ELSE Pre(Step(C, Op, Q.z0, Q.r0, Q.method, Q.sub, inforce, First))
                       \cup Clause("C20.starts from the given solution", RNearSeq(Calls[1].x0, Q.z0, "1/1000000000")))
            /\ w' = inforce
            /\ pc' = IF Len(Calls) = 0 \/ "raised" \in DOMAIN Q THEN "finish" ELSE "solve"
         /\ es' = << >> /\ k' = 1 /\ UNCHANGED << cs, run >>
Solve == /\ pc = "solve"
         /\ w' = Calls[k].p /\ es' = Append(es, Err(Calls[k].r))
         /\ bad' = bad \cup Clause("C20.each solve starts from the previous answer",
                      k = 1 \/ RNearSeq(Calls[k].x0, Calls[k - 1].z, "1/1000000000"))
                      \cup Clause("C20.multipliers of the previous answer",
                      k = 1 \/ (RNearSeq(Calls[k].lx, Calls[k - 1].lamx, "1/1000000000") /\ RNearSeq(Calls[k].lg, Calls[k - 1].lamg, "1/1000000000")))
         /\ pc' = "judge" /\ UNCHANGED << cs, run, k >>
Judge == /\ pc = "judge"
         /\ LET more == k < Len(Calls)
                new == IF more THEN Calls[k + 1].p ELSE Q.after
                why == Reasons(es, w, new, MinTol, Q.limit) IN
            /\ bad' = bad \cup Pre(Step(C, Op, Calls[k].z, Calls[k].r, Q.method, Q.sub, w, new))
                 \cup (IF more THEN UNION {Clause("C20.solved on although: " \o x, FALSE) : x \in why}
                       ELSE Clause("C20.stopped without a reason", why # {}))
            /\ pc' = (IF more THEN "solve" ELSE "finish")
            /\ k' = (IF more THEN k + 1 ELSE k)
         /\ UNCHANGED << cs, run, w, es >>
TimesOf(z) == Cat([p \in 1..C.np |-> OrigTimes(C, Op, PhaseData(C, z, w, p))])
Finish == /\ pc = "finish"
          /\ bad' = bad \cup
               (IF "raised" \in DOMAIN Q THEN {}
                ELSE Clause("C20.returns the last answer", Q.returned = Len(Calls))
                     \cup (IF Q.returned = Len(Calls)
                           THEN Clause("C20.post-processing uses the widths of the returned answer",
                                       RNearSeq(Q.times, TimesOf(IF Len(Calls) = 0 THEN Q.z0 ELSE Calls[k].z), "1/1000000"))
                           ELSE {}))
          /\ run' = (IF run < Len(Runs20) THEN run + 1 ELSE run)
          /\ pc' = (IF run < Len(Runs20) THEN "begin" ELSE "end")
          /\ k' = 1 /\ UNCHANGED << cs, w, es >>
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
End == /\ (pc = "end" \/ (Raised /\ pc = "begin")) /\ pc' = "over"
       /\ bad' = IF Raised THEN {"C20.raised: " \o Cases[cs].raised} ELSE bad
       /\ UNCHANGED << cs, run, k, w, es >>
       /\ Verdict(bad')
Next == Begin \/ Solve \/ Judge \/ Finish \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
