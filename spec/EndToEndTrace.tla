----------------------------- MODULE EndToEndTrace -----------------------------
(* Conformance of whole solves with the real solver: every case is a problem    *)
(* and a sequence of solves (kinds of optimisers, cold or warm) with what was   *)
(* retrieved afterwards.                                                        *)
EXTENDS EndToEnd
Cases == JsonDeserialize("cases.json")
VARIABLES cs, k, bad
vars == << cs, k, bad >>
Degs == UNION {UNION {{<< Cases[n].c.scheme, Cases[n].runs[m].orders[s] >> : s \in 1..Len(Cases[n].runs[m].orders)} : m \in 1..Len(Cases[n].runs)} : n \in 1..Len(Cases)}
Op == Force([s \in {o[1] : o \in Degs} |-> [dg \in {o[2] : o \in {x \in Degs : x[1] = s}} |-> OpsOf(s, dg)]])
Raised == "raised" \in DOMAIN Cases[cs]
Run == Cases[cs].runs[k]
K == Cases[cs].known
C == [Cases[cs].c EXCEPT !.orders = Run.orders]
Tol == "1/100000"
CTol == "1/10000"
KTol == "1/500"          \* a cost of 1e-7 that is left over shows as 1e-3 in the values
Clause(name, ok) == IF ok THEN {} ELSE {name}
Judge ==
  IF Run.raised # "" THEN {"C25.raised: " \o Run.raised}
  ELSE IF ~Run.success THEN Clause("C25.a problem with a known solution was not solved",
                                 ~Run.must \/ (Broken(C, Op, Run.phases, Tol) = {} /\ IsKnown(C, K, Run.phases, KTol)))   \* the solver may give up just short of its own accuracy
  ELSE LET b == Broken(C, Op, Run.phases, Tol) IN
       {"C25." \o x : x \in b}
       \cup (IF "shape" \in b THEN {} ELSE
              Clause("C25.reported cost", RNear(Cost(C, Op, Run.phases), Run.f, CTol))
              \cup (IF Cases[cs].family \in {"tracking", "bang"}
                    THEN IF ~Run.must /\ RLt("1/1000000", Run.f) THEN {} ELSE   \* stuck at another stationary point
                         Clause("C25.known solution at the nodes", IsKnown(C, K, Run.phases, KTol))
                         \cup Clause("C25.known solution between the nodes", \A p \in 1..C.np :
                                LET f == Run.fine[p] IN Len(f.x) = Len(f.t) /\ Len(f.u) = Len(f.t) /\ Len(f.t) > 0 /\
                                \A n \in 1..Len(f.t) : Same(C, K, p, f.t[n], f.x[n], f.u[n], KTol))
                    ELSE IF ~Run.best THEN {} ELSE Clause("C25.a better trajectory is known", RLe(Run.f,
                                LET j == Cost(C, Op, OnNodes(C, K, Run.phases)) IN RAdd(j, RMul(CTol, RAdd(1, RAbs(j))))))))
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
Init == cs \in 1..Len(Cases) /\ k = 1 /\ bad = {}
Solved == ~Raised /\ k \in 1..Len(Cases[cs].runs) /\ bad' = bad \cup Judge /\ k' = k + 1 /\ UNCHANGED cs
Finish == /\ (Raised /\ k = 1) \/ (~Raised /\ k = Len(Cases[cs].runs) + 1)
          /\ k' = 0 /\ UNCHANGED cs
          /\ bad' = IF Raised THEN {"C25.raised: " \o Cases[cs].raised} ELSE bad
          /\ Verdict(bad')
Next == Solved \/ Finish
Spec == Init /\ [][Next]_vars
================================================================================
