------------------------------- MODULE PlotTrace ------------------------------
(* Conformance of plots: sessions of drawing requests recorded from the real   *)
(* code; after every request the lines of the touched figure are compared with *)
(* the panels of the machine of Plot.                                          *)
EXTENDS Plot, Rat, Json, FiniteSets
Cases == JsonDeserialize("cases.json")
VARIABLES cs, k, figs, bad, over
vars == << cs, k, figs, bad, over >>
C == Cases[cs]
Raised == "raised" \in DOMAIN C
S == C.session
Ev == C.events[k]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Tol == "1/1000000000"
\* rows of residuals against their norms
NormsAgree(ys, rows) == Len(ys) = Len(rows) /\ \A m \in 1..Len(ys) :
   RFin(ys[m]) /\ RLe(0, ys[m]) /\ RNear(RMul(ys[m], ys[m]), RDot(rows[m], rows[m]), Tol)
SameCurve(g, c) == g.label = c.label /\ RNearSeq(g.x, c.x, Tol) /\ (IF c.norm THEN NormsAgree(g.y, c.y) ELSE RNearSeq(g.y, c.y, Tol))
SameData(g, c) == RNearSeq(g.x, c.x, Tol) /\ (IF c.norm THEN NormsAgree(g.y, c.y) ELSE RNearSeq(g.y, c.y, Tol))
\* as many of each; curves of norms are compared with their own kind
Curves(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(want) :
   Cardinality({j \in 1..Len(got) : SameData(got[j], want[i])}) = Cardinality({j \in 1..Len(want) : want[j].norm = want[i].norm /\ RNearSeq(want[j].x, want[i].x, Tol)
        /\ (IF want[i].norm THEN \A m \in 1..Len(want[i].y) : RNear(RDot(want[j].y[m], want[j].y[m]), RDot(want[i].y[m], want[i].y[m]), Tol) ELSE RNearSeq(want[j].y, want[i].y, Tol))})
Labels(got, want) == \A i \in 1..Len(want) : want[i].label = "" \/ \E j \in 1..Len(got) : SameCurve(got[j], want[i])
Named(cur) == {i \in 1..Len(cur) : cur[i].label # ""}
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Legend(g, w) ==
  /\ \A i \in Named(w.curves) : Count(g.legend, w.curves[i].label) = Cardinality({j \in Named(w.curves) : w.curves[j].label = w.curves[i].label})
  /\ Len(g.legend) = Cardinality(Named(w.curves))
Panel(got, w) ==
  LET at == {i \in 1..Len(got) : got[i].pos = w.pos} IN
  IF Cardinality(at) # 1 THEN {"C27.panel missing or drawn twice"}
  ELSE LET g == got[CHOOSE i \in at : TRUE] IN
       IF Len(g.curves) # Len(w.curves) THEN {"C27.number of curves"}
       ELSE Clause("C27.curves draw the retrieved data", Curves(g.curves, w.curves))
            \cup Clause("C27.labels of components", Labels(g.curves, w.curves) /\ Cardinality(Named(g.curves)) = Cardinality(Named(w.curves)) /\ Legend(g, w))
            \cup Clause("C27.labels of axes", g.yl = w.yl /\ (w.xl = "any" \/ g.xl = w.xl))
Figure(got, want) == Clause("C27.number of panels", Len(got) = Len(want)) \cup UNION {Panel(got, want[i]) : i \in 1..Len(want)}
Changed == {"C27.changed: " \o Ev.changed[n] : n \in 1..Len(Ev.changed)}
\* nothing more is learnt from a session that went wrong
Step == k' = (IF bad' = bad THEN k + 1 ELSE Len(C.events) + 1)
Init == cs \in 1..Len(Cases) /\ k = 1 /\ figs = << >> /\ bad = {} /\ over = FALSE
Go == ~over /\ ~Raised /\ k <= Len(C.events) /\ UNCHANGED << cs, over >>
Failed == Go /\ Ev.raised # "" /\ bad' = bad \cup Changed \cup {"C27.raised: " \o Ev.raised} /\ UNCHANGED figs /\ Step
Process ==
  /\ Go /\ Ev.raised = "" /\ Ev.e = "process"
  /\ LET new == Processed(Ev.session, Ev.res) IN
     /\ figs' = figs \o new
     /\ bad' = bad \cup Changed \cup
          (IF Ev.nfigs # Len(figs) + Len(new) THEN {"C27.number of figures"}
           ELSE UNION {Figure(Ev.got[g], new[g]) : g \in 1..Len(new)})
  /\ Step
Request ==
  /\ Go /\ Ev.raised = "" /\ Ev.e # "process"
  /\ LET new == Place(S, figs, Ev)  at == IF InPlace(S, Ev) THEN Ev.on ELSE Len(new) IN
     /\ figs' = new
     /\ bad' = bad \cup Changed \cup
          (IF Ev.nfigs # Len(new) THEN {"C27.number of figures"}
           ELSE Figure(Ev.got[1], new[at])
                \cup Clause("C27.figure and axes returned", Ev.e \in {"curve", "report"} \/ (Ev.fig = at /\ Ev.axes = [i \in 1..Len(new[at]) |-> new[at][i].pos])))
  /\ Step
\* residuals drawn while refining: those of every answer refined from, under the number of the iteration, and nothing else
Evolution == IF "evolution" \notin DOMAIN C THEN {} ELSE
  LET E == C.evolution  ph == Join(S.groups)
      Of(n) == {i \in 1..Len(E.curves) : RNearSeq(E.curves[i].x, RTimes(E.reps[n], ph), Tol) /\ NormsAgree(E.curves[i].y, Rows(E.reps[n], ph))}
      of == Force([n \in 1..Len(E.reps) |-> Of(n)])
  IN Clause("C27.evolution of residuals", /\ \A n \in 1..Len(E.reps) : \E i \in of[n] : E.curves[i].label = E.names[n]
                                          /\ UNION {of[n] : n \in 1..Len(E.reps)} = 1..Len(E.curves))
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
End == /\ ~over /\ (Raised \/ k > Len(C.events)) /\ over' = TRUE
       /\ bad' = (IF Raised THEN {"C27.raised: " \o C.raised} ELSE bad \cup Evolution)
       /\ UNCHANGED << cs, k, figs >> /\ Verdict(bad')
Next == Failed \/ Process \/ Request \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
