--------------------------------- MODULE Plot ---------------------------------
(* What is drawn.  A figure is a sequence of panels; a panel has a position    *)
(* << rows, columns, index >>, curves and axis labels.  A session S has        *)
(*   data[p][kind]  kind "node" or "fine": t, and x, u as columns              *)
(*   nx, nu, groups (groups of phases drawn by default, first one foremost)    *)
(*   rx, rdx        whether residuals of states, of dynamics were asked for    *)
(*   resx, resdx    those residuals: [phase][segment] with t and rows r        *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN << >> ELSE Head(s) \o Join(Tail(s))
Upto(n) == [i \in 1..n |-> i]
Blank(rows, cols, idx) == [pos |-> << rows, cols, idx >>, curves |-> << >>, yl |-> "", xl |-> ""]
Stack(n, axis) == [i \in 1..n |-> IF axis = 1 THEN Blank(n, 1, i) ELSE Blank(1, n, i)]
Draw(panel, curves, yl, xl) ==
  [panel EXCEPT !.curves = @ \o curves, !.yl = yl, !.xl = IF xl = "keep" THEN @ ELSE xl]
\* --- retrieved data of some phases, in their order
Times(S, phases, kind) == Join([n \in 1..Len(phases) |-> S.data[phases[n]][kind].t])
Column(S, phases, kind, var, i) == Join([n \in 1..Len(phases) |-> S.data[phases[n]][kind][var][i]])
Label(name, k) == IF name = "" THEN "" ELSE name \o " " \o ToString(k)
\* one curve per component; components are counted from "from" in labels
CurvesOf(S, phases, kind, var, comps, name, from) == LET t == Times(S, phases, kind) IN
  [m \in 1..Len(comps) |-> [x |-> t, y |-> Column(S, phases, kind, var, comps[m]),
                            label |-> Label(name, comps[m] - 1 + from), norm |-> FALSE]]
\* --- states above controls
All(S, fig, phases, kind, named, name) ==
  [fig EXCEPT ![1] = Draw(@, CurvesOf(S, phases, kind, "x", Upto(S.nx), IF named THEN name \o "state" ELSE "", 1), "State variables", "keep"),
              ![2] = Draw(@, CurvesOf(S, phases, kind, "u", Upto(S.nu), IF named THEN name \o "control" ELSE "", 1), "Control variables", "Time, s")]
\* --- components of one variable, one panel per group of components
Single(S, fig, phases, kind, var, groups, name, yl, axis) ==
  [i \in 1..Len(fig) |-> Draw(fig[i], CurvesOf(S, phases, kind, var, groups[i], name, 0), yl,
                              IF axis = 0 \/ i = Len(fig) THEN "Time, s" ELSE "keep")]
Groups(groups, n) == IF groups = << >> THEN << Upto(n) >> ELSE groups
PlotX(S, fig, phases, fine, groups, axis) ==
  Single(S, fig, phases, IF fine THEN "fine" ELSE "node", "x", Groups(groups, S.nx), "state", "State variables", axis)
\* controls: the nodes, named, and the interpolated curve over them
PlotU(S, fig, phases, fine, groups, name, yl, axis) ==
  LET g == Groups(groups, S.nu)  a == Single(S, fig, phases, "node", "u", g, name, IF fine THEN "" ELSE yl, axis) IN
  IF fine THEN Single(S, a, phases, "fine", "u", g, "", yl, axis) ELSE a
\* --- residuals
Rows(res, phases) == Join([n \in 1..Len(phases) |-> Join([s \in 1..Len(res[phases[n]]) |-> res[phases[n]][s].r])])
RTimes(res, phases) == Join([n \in 1..Len(phases) |-> Join([s \in 1..Len(res[phases[n]]) |-> res[phases[n]][s].t])])
ResPanel(S, panel, res, name, yl) ==
  LET ph == Upto(Len(res))  rows == Rows(res, ph)  t == RTimes(res, ph) IN
  Draw(panel, [i \in 1..S.nx |-> [x |-> t, y |-> [m \in 1..Len(rows) |-> rows[m][i]], label |-> Label(name, i), norm |-> FALSE]], yl, "any")
\* norms of residuals, as points and as a line
Norms(panel, res, phases, name) ==
  LET c == [x |-> RTimes(res, phases), y |-> Rows(res, phases), label |-> "", norm |-> TRUE] IN
  Draw(panel, << [c EXCEPT !.label = name], c >>, "residuals", "Time, s")
\* --- phases: states, controls and, where there are some, residuals
ShowsResiduals(S, res) == res /\ (S.rx \/ S.rdx)
Phases(S, fig, phases, fine, res, name) ==
  LET with == ShowsResiduals(S, res)
      start == IF with THEN << Blank(2, 2, 1), Blank(2, 2, 3) >> ELSE fig
      a == IF fine THEN All(S, start, phases, "fine", FALSE, "") ELSE start
      b == All(S, a, phases, "node", TRUE, name)
  IN IF ~with THEN b
     ELSE IF S.rx /\ S.rdx THEN b \o << ResPanel(S, Blank(2, 2, 2), S.resx, "x", "States error"), ResPanel(S, Blank(2, 2, 4), S.resdx, "dx", "Dynamics error") >>
     ELSE b \o << IF S.rx THEN ResPanel(S, Blank(1, 2, 2), S.resx, "x", "States error") ELSE ResPanel(S, Blank(1, 2, 2), S.resdx, "dx", "Dynamics error") >>
\* --- one drawing request on an existing figure (op.on > 0) or a new one; the panels afterwards
Canvas(figs, op, n, axis) == IF op.on > 0 THEN figs[op.on] ELSE Stack(n, axis)
PhasesOf(S, op) == IF op.phases = << >> THEN S.groups[1] ELSE op.phases
Drawn(S, figs, op) ==
  LET ph == PhasesOf(S, op)  kind == IF op.fine THEN "fine" ELSE "node" IN
  CASE op.e \in {"phases", "phase"} -> Phases(S, Canvas(figs, op, 2, 1), ph, op.fine, op.res, op.name)
    [] op.e = "all" -> All(S, Canvas(figs, op, 2, 1), ph, kind, op.named, op.name)
    [] op.e = "x" -> PlotX(S, Canvas(figs, op, Len(Groups(op.groups, S.nx)), op.axis), ph, op.fine, op.groups, op.axis)
    [] op.e = "u" -> PlotU(S, Canvas(figs, op, Len(Groups(op.groups, S.nu)), op.axis), ph, op.fine, op.groups, op.name, op.yl, op.axis)
    [] op.e = "single" -> Single(S, Canvas(figs, op, Len(op.groups), op.axis), ph, kind, op.var, op.groups, op.name, op.yl, op.axis)
    [] op.e = "curve" -> << Draw(Canvas(figs, op, 1, 1)[1], CurvesOf(S, ph, kind, op.var, Upto(IF op.var = "x" THEN S.nx ELSE S.nu), op.name, 1), op.yl, "keep") >>
    [] op.e = "norms" -> << Norms(Canvas(figs, op, 1, 1)[1], IF op.var = "x" THEN S.resx ELSE S.resdx, ph, op.name) >>
    [] op.e = "report" -> << Norms(Canvas(figs, op, 1, 1)[1], op.rep, IF op.phases = << >> THEN Upto(Len(op.rep)) ELSE op.phases, "") >>   \* what the call reported
\* drawing while processing results: one figure per group of phases
Processed(S, res) == [g \in 1..Len(S.groups) |-> Phases(S, Stack(2, 1), S.groups[g], TRUE, res, "")]
\* a figure that shows residuals is always a new one
InPlace(S, op) == op.on > 0 /\ ~(op.e \in {"phases", "phase"} /\ ShowsResiduals(S, op.res))
Place(S, figs, op) == IF InPlace(S, op) THEN [figs EXCEPT ![op.on] = Drawn(S, figs, op)] ELSE Append(figs, Drawn(S, figs, op))
===============================================================================
