---------------------------- MODULE ValidateTrace -----------------------------
(* Conformance of validation: real problem objects described as in Validate,  *)
(* with the outcome of their validation ("ok", "assertion", or another error) *)
EXTENDS Validate, TLC, Json
Cases == JsonDeserialize("cases.json")
VARIABLES cs, j, bad
vars == << cs, j, bad >>
Raised == "raised" \in DOMAIN Cases[cs]
Qs == Cases[cs].calls
Init == cs \in 1..Len(Cases) /\ j = 1 /\ bad = {}
Show(S) == IF S = {} THEN "nothing" ELSE CHOOSE x \in S : TRUE
Judge == /\ ~Raised /\ j <= Len(Qs)
         /\ LET q == Qs[j] IN
            bad' = bad \cup (IF Consistent(q.p) THEN (IF q.out = "ok" THEN {} ELSE {"C23.consistent problem refused: " \o q.out})
                             ELSE IF q.out = "assertion" THEN {}
                             ELSE {"C23.inconsistent problem (" \o Show(Faults(q.p)) \o "): " \o q.out})
                        \cup (IF q.same THEN {} ELSE {"C23.validation changes the problem"})
         /\ j' = j + 1 /\ UNCHANGED cs
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
End == /\ Raised \/ j = Len(Qs) + 1
       /\ j' = -1
       /\ bad' = (IF Raised THEN {"C23.raised: " \o Cases[cs].raised} ELSE bad)
       /\ UNCHANGED cs /\ Verdict(bad')
Next == j > 0 /\ (Judge \/ End)
Spec == Init /\ [][Next]_vars
===============================================================================
