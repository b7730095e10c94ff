------------------------------- MODULE LifeTrace ------------------------------
(* Conformance of the life of optimisers: histories of the user's edits, new   *)
(* optimisers, settings, solves (some failing) and questions recorded from the *)
(* real code, walked through by the machine of Life.  References of every      *)
(* version in force (default start, bounds, values of the problem at a probe)  *)
(* come from untouched processes that made that version only.                  *)
EXTENDS Life, Sequences, Json
Cases == JsonDeserialize("cases.json")
VARIABLES cs, k, prob, opts, bad, over
vars == << cs, k, prob, opts, bad, over >>
C == Cases[cs]
Raised == "raised" \in DOMAIN C
Ev == C.events[k]
Ref(version) == C.refs[ToString(version[1]) \o "|" \o version[2]]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Changed == {"C22.changed: " \o Ev.changed[n] : n \in 1..Len(Ev.changed)}
Known == {"x0", "p", "lam_x0", "lam_g0", "lbx", "ubx", "lbg", "ubg"}
Init == cs \in 1..Len(Cases) /\ k = 1 /\ prob = 1 /\ opts = << >> /\ bad = {} /\ over = FALSE
Go == ~over /\ ~Raised /\ k <= Len(C.events)
Step(kind) == Go /\ Ev.e = kind /\ k' = k + 1 /\ UNCHANGED << cs, over >>
Edit == Step("edit") /\ prob' = prob + 1 /\ bad' = bad \cup Changed /\ UNCHANGED opts
Other == Step("other") /\ bad' = bad \cup Changed /\ UNCHANGED << prob, opts >>
New == Step("new") /\ opts' = Append(opts, Fresh(prob, Ev.set)) /\ bad' = bad \cup Changed /\ UNCHANGED prob
Set == Step("set") /\ opts' = [opts EXCEPT ![Ev.i] = SetTo(@, Ev.set, Ev.reset)] /\ bad' = bad \cup Changed /\ UNCHANGED prob
\* one call of the solver: its inputs
Inputs(o, call) ==
  LET ref == Ref(o.built)  st == Ev.start IN
  Clause("C13.only inputs that the solver knows", DOMAIN call \subseteq Known)
  \cup (IF ~({"x0", "lbx", "ubx", "lbg", "ubg"} \subseteq DOMAIN call) THEN {"C13.start values and bounds are given"} ELSE
       Clause("C13.start values", call.x0 = StartOf(st, ref.x0))
       \cup Clause("C22.default start of the version in force", "x" \in DOMAIN st \/ call.x0 = ref.x0)
       \cup (LET b == call.lbx = ref.lbx /\ call.ubx = ref.ubx /\ call.lbg = ref.lbg /\ call.ubg = ref.ubg IN
             Clause("C13.bounds of the transcribed problem", b) \cup Clause("C22.bounds of the version in force", b)))
  \cup Clause("C13.multipliers of the variables", IF "lamx" \in DOMAIN st THEN "lam_x0" \in DOMAIN call /\ call.lam_x0 = st.lamx ELSE "lam_x0" \notin DOMAIN call)
  \cup Clause("C13.multipliers of the constraints", IF "lamg" \in DOMAIN st THEN "lam_g0" \in DOMAIN call /\ call.lam_g0 = st.lamg ELSE "lam_g0" \notin DOMAIN call)
  \cup (CASE Ev.widths = "none" -> Clause("C13.no widths", "p" \notin DOMAIN call)
          [] Ev.widths = "any" -> {}
          [] Ev.widths = "equal" -> Clause("C13.equal widths", "p" \in DOMAIN call /\ RNearSeq(call.p, EqualWidths(ref.segs, ref.phases), "1/1000000000000"))
          [] OTHER -> Clause("C13.the caller's widths", "p" \in DOMAIN call /\ call.p = Ev.given))
Solve ==
  /\ Step("solve")
  /\ LET o == opts[Ev.i]  b == Builds(o, Ev.again)  o2 == SolveOn(o, Ev.again)  r == Ev.rec IN
     /\ opts' = [opts EXCEPT ![Ev.i] = o2]
     /\ bad' = bad \cup Changed
        \cup Clause("C22.transcribed although nothing asked for it", b \/ r.created = 0)
        \cup Clause("C22.not transcribed although it had to be", ~b \/ r.created >= 1)
        \cup Clause("C13.solver created once", r.created <= 1)
        \cup (IF b /\ r.created >= 1 THEN
                Clause("C13.plugin", r.plugin = Ev.plugin)
                \cup Clause("C13.options", SameMap(r.opts, OptionsOf(Ev.plugin, Ev.own)))
              ELSE {})
        \cup (IF r.ncalls = 1
              THEN Clause("C22.problem of the version in force", r.f = Ref(o2.built).f /\ r.g = Ref(o2.built).g) \cup Inputs(o2, r.call)
              ELSE {"C13.one call of the solver"})
        \cup (IF Ev.fails THEN Clause("C13.failure of the solver hidden", r.raised # "")
              ELSE IF r.raised # "" THEN {"C13.raised: " \o r.raised, "C22.raised: " \o r.raised}
              ELSE Clause("C13.answer returned unchanged", r.returned))
  /\ UNCHANGED prob
Ask ==
  /\ Step("ask")
  /\ bad' = bad \cup Changed
       \cup (IF Ev.raised # "" THEN {"C22.raised: " \o Ev.raised} ELSE
             Clause("C22.the same question has the same answer", Ev.before = << >> \/ Ev.before = Ev.data)
             \cup Clause("C22.default start of the version in force", Ev.guess = << >> \/ Ev.guess = Ref(opts[Ev.i].cur).x0))
  /\ UNCHANGED << prob, opts >>
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
End == /\ ~over /\ (Raised \/ k > Len(C.events)) /\ over' = TRUE
       /\ bad' = (IF Raised THEN {"C13.raised: " \o C.raised, "C22.raised: " \o C.raised} ELSE bad)
       /\ UNCHANGED << cs, k, prob, opts >> /\ Verdict(bad')
Next == Edit \/ Other \/ New \/ Set \/ Solve \/ Ask \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
