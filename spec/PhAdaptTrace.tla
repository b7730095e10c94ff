------------------------------ MODULE PhAdaptTrace ----------------------------
(* Conformance of degree-and-width refinement: histories of solver calls      *)
(* recorded from the real optimiser, walked through call by call.  A run:     *)
(* limit (iterations allowed), lo, hi (limits of degrees), tol, and per call  *)
(* the mesh (o: degrees, w: widths per phase), the answer z and r[p][s], the  *)
(* largest relative state residual of each phase and segment.  The odd solves *)
(* are on a given or divided mesh, the even ones on the raised mesh.          *)
EXTENDS Steps, PhAdapt, FiniteSetsExt
Cases == JsonDeserialize("cases.json")
VARIABLES cs, run, kc, pc, bad
vars == << cs, run, kc, pc, bad >>
Raised == "raised" \in DOMAIN Cases[cs]
C == Cases[cs].c
Q == Cases[cs].runs[run]
Calls == Q.calls
Clause(name, ok) == IF ok THEN {} ELSE {name}
OutAt(j) == Out(Calls[j].r, Q.tol)
\* second derivatives of the states of call j: largest of each segment
Degs == UNION {UNION {UNION {Range(Cases[a].runs[b].calls[j].o) : j \in 1..Len(Cases[a].runs[b].calls)} : b \in 1..Len(Cases[a].runs)}
               : a \in {a \in 1..Len(Cases) : "raised" \notin DOMAIN Cases[a]}}
Curv2 == Force([s \in {Cases[a].c.scheme : a \in {a \in 1..Len(Cases) : "raised" \notin DOMAIN Cases[a]}} |-> [d \in Degs |->
           LET b == Basis(RefNodes(s, d)) IN [x \in 1..3 |-> DerRow(b, x - 2, 2)]]])
CurvOf(j) == LET c == [C EXCEPT !.orders = Calls[j].o] IN Force([p \in 1..C.np |->
     LET d == PhaseData(c, Calls[j].z, Cat(Calls[j].w), p) IN
     [s \in 1..Len(c.orders) |-> [i \in 1..C.nx |->
        RMaxOf([x \in 1..3 |-> RAbs(RDot(Curv2[C.scheme][c.orders[s]][x], SegVals(c, d.X[i], s)))])]]])
Init == /\ cs \in 1..Len(Cases) /\ run = 1 /\ kc = 1 /\ bad = {}
        /\ pc = IF "raised" \in DOMAIN Cases[cs] THEN "end" ELSE IF "raised" \in DOMAIN Cases[cs].runs[1] THEN "finish" ELSE "start"
Start == /\ pc = "start"
         /\ bad' = bad \cup
              Clause("C24.at least one solve", Len(Calls) > 0)
              \cup Clause("C24.at most two solves per iteration", Len(Calls) <= 2 * Q.limit)
              \cup (IF Len(Calls) = 0 THEN {}
                    ELSE Clause("C24.first solve on the mesh in force", Calls[1].o = Q.o0 /\ \A p \in 1..C.np : RNearSeq(Calls[1].w[p], Q.w0[p], PTol)))
         /\ pc' = (IF Len(Calls) > 0 THEN "call" ELSE "finish") /\ UNCHANGED << cs, run, kc >>
Call == /\ pc = "call"
        /\ bad' = bad \cup Clause("C24.degrees within limits, widths positive and summing to one", ValidPh(Calls[kc].o, Calls[kc].w, Q.lo, Q.hi))
             \cup (IF kc = 1 THEN {}
                   ELSE Clause("C24.solved again although within accuracy", OutAt(kc - 1) # {})
                        \cup Clause("C24.only segments out of tolerance change", MeshStep(Calls[kc - 1].o, Calls[kc - 1].w, OutAt(kc - 1), Calls[kc].o, Calls[kc].w, Q.hi))
                        \cup (IF kc % 2 = 0 THEN Clause("C24.degrees rise where out of tolerance", Raised1(Calls[kc - 1].o, Calls[kc - 1].w, OutAt(kc - 1), Calls[kc].o, Calls[kc].w, Q.hi))
                              ELSE Clause("C24.divided exactly where not smooth",
                                     DivideRule(Calls[kc - 1].r, Q.tol, CurvOf(kc - 2), CurvOf(kc - 1), Q.thr, Calls[kc - 1].w, Calls[kc].w))))
        /\ IF kc < Len(Calls) THEN kc' = kc + 1 /\ pc' = pc ELSE kc' = kc /\ pc' = "finish"
        /\ UNCHANGED << cs, run >>
TimesOf(j) == LET c == [C EXCEPT !.orders = Calls[j].o]
                  op == [s \in {C.scheme} |-> [d \in {Calls[j].o[i] : i \in 1..Len(Calls[j].o)} |-> [nodes |-> RefNodes(s, d)]]]
              IN Cat([p \in 1..C.np |-> OrigTimes(c, op, PhaseData(c, Calls[j].z, Cat(Calls[j].w), p))])
Finish == /\ pc = "finish"
          /\ bad' = bad \cup
               (IF "raised" \in DOMAIN Q THEN {"C24.raised: " \o Q.raised}
                ELSE IF Len(Calls) = 0 THEN {}
                ELSE Clause("C24.stopped although out of tolerance", Len(Calls) = 2 * Q.limit \/ OutAt(Len(Calls)) = {})
                     \cup Clause("C24.returns the last answer", Q.returned = Len(Calls))
                     \cup Clause("C24.the mesh left is that of the last solve", Q.o1 = Calls[Len(Calls)].o /\ Q.n1 = Len(Q.o1))
                     \cup (IF "lost" \in DOMAIN Q THEN {"C24.post-processing raised: " \o Q.lost}
                           ELSE Clause("C24.post-processing uses the mesh of the last solve", RNearSeq(Q.times, TimesOf(Len(Calls)), "1/1000000"))))
          /\ run' = (IF run < Len(Cases[cs].runs) THEN run + 1 ELSE run)
          /\ pc' = (IF run < Len(Cases[cs].runs) THEN (IF "raised" \in DOMAIN Cases[cs].runs[run + 1] THEN "finish" ELSE "start") ELSE "end")
          /\ kc' = 1 /\ UNCHANGED cs
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
End == /\ pc = "end" /\ pc' = "over"
       /\ bad' = IF Raised THEN {"C24.raised: " \o Cases[cs].raised} ELSE bad
       /\ UNCHANGED << cs, run, kc >>
       /\ Verdict(bad')
Next == Start \/ Call \/ Finish \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
