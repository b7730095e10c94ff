-------------------------------- MODULE PlotMC --------------------------------
(* Design check of Plot: every sequence of drawing requests on small sessions. *)
EXTENDS Plot, FiniteSets
CONSTANTS NPhases, NX, NU, MaxOps, WithResiduals
VARIABLES figs, ops, last, done
vars == << figs, ops, last, done >>
\* values are tokens that name where they come from; node data have one point per phase, fine data two
Tok(p, kind, v, i, n) == << p, kind, v, i, n >>
Data == [p \in 1..NPhases |-> [kind \in {"node", "fine"} |->
          LET n == IF kind = "node" THEN 1 ELSE 2 IN
          [t |-> [m \in 1..n |-> Tok(p, kind, "t", 0, m)],
           x |-> [i \in 1..NX |-> [m \in 1..n |-> Tok(p, kind, "x", i, m)]],
           u |-> [i \in 1..NU |-> [m \in 1..n |-> Tok(p, kind, "u", i, m)]]]]]
\* two segments per phase, the first without points
Res(k) == [p \in 1..NPhases |-> << [t |-> << >>, r |-> << >>], [t |-> << Tok(p, k, "t", 0, 1) >>, r |-> << [i \in 1..NX |-> Tok(p, k, "r", i, 1)] >>] >>]
S == [data |-> Data, nx |-> NX, nu |-> NU, groups |-> << Upto(NPhases) >>, rx |-> WithResiduals, rdx |-> WithResiduals, resx |-> Res("x"), resdx |-> Res("dx")]
PhaseLists == {<< >>} \cup {<< p >> : p \in 1..NPhases} \cup {<< p, q >> : p, q \in 1..NPhases}
GroupLists(n) == {<< >>, << << 1 >> >>, << Upto(n) >>} \cup {<< << i >>, << j >> >> : i, j \in 1..n}
Op(e, on, ph, fine, g, axis) == [e |-> e, on |-> on, phases |-> ph, fine |-> fine, res |-> e = "phase", name |-> IF e = "u" THEN "control" ELSE "",
                                named |-> TRUE, groups |-> g, axis |-> axis, yl |-> "y", var |-> "x", rep |-> Res("x")]
Requests == {Op("phases", 0, ph, f, << >>, 1) : ph \in PhaseLists, f \in BOOLEAN}
  \cup {Op("phase", 0, << p >>, f, << >>, 1) : p \in 1..NPhases, f \in BOOLEAN}
  \cup {Op("x", 0, ph, f, g, a) : ph \in PhaseLists, f \in BOOLEAN, g \in GroupLists(NX), a \in {0, 1}}
  \cup {Op("u", 0, ph, f, g, 1) : ph \in PhaseLists, f \in BOOLEAN, g \in GroupLists(NU)}
  \cup {Op("report", 0, ph, FALSE, << >>, 1) : ph \in PhaseLists}
  \cup {Op("norms", 0, << p >>, FALSE, << >>, 1) : p \in 1..NPhases}
Panels(op) == CASE op.e \in {"phases", "phase"} -> 2 [] op.e = "x" -> Len(Groups(op.groups, NX)) [] op.e = "u" -> Len(Groups(op.groups, NU)) [] OTHER -> 1
Init == figs = << >> /\ ops = 0 /\ last = Op("none", 0, << >>, FALSE, << >>, 1) /\ done = FALSE
Request == /\ ops < MaxOps /\ ops' = ops + 1
           /\ \E o \in Requests : \E on \in {0} \cup {f \in 1..Len(figs) : Len(figs[f]) = Panels(o)} :
                LET r == [o EXCEPT !.on = on] IN figs' = Place(S, figs, r) /\ last' = r
           /\ UNCHANGED done
Processing == /\ ops < MaxOps /\ ~done /\ done' = TRUE /\ ops' = ops + 1 /\ figs' = figs \o Processed(S, WithResiduals) /\ last' = Op("process", 0, << >>, TRUE, << >>, 1)
Next == Request \/ Processing
Spec == Init /\ [][Next]_vars
Curve == UNION {UNION {{figs[f][i].curves[c] : c \in 1..Len(figs[f][i].curves)} : i \in 1..Len(figs[f])} : f \in 1..Len(figs)}
\* abscissae and ordinates pair up: same phase, same kind of data, same point, one component throughout
PointsPairUp == \A c \in Curve : Len(c.x) = Len(c.y) /\ Len(c.x) > 0 /\ \A m \in 1..Len(c.x) :
   LET y == IF c.norm THEN c.y[m][1] ELSE c.y[m] IN
   /\ c.x[m][1] = y[1] /\ c.x[m][2] = y[2] /\ c.x[m][5] = y[5] /\ c.x[m][3] = "t"
   /\ c.norm \/ (y[3] = c.y[1][3] /\ y[4] = c.y[1][4] /\ y[2] = c.y[1][2])
\* states and controls never share a panel of a fresh figure
Fresh == last.on = 0 /\ Len(figs) > 0
Kinds(p) == {c.y[1][3] : c \in {p.curves[i] : i \in {j \in 1..Len(p.curves) : ~p.curves[j].norm}}}
OneVariablePerPanel == Fresh => \A i \in 1..Len(figs[Len(figs)]) : Cardinality(Kinds(figs[Len(figs)][i])) <= 1
\* a request for all components draws each of them, once per kind of data
EveryComponentOnce == (Fresh /\ last.e \in {"phases", "phase"}) =>
   \A v \in {"x", "u"} : \A i \in 1..(IF v = "x" THEN NX ELSE NU) : \A kind \in (IF last.fine THEN {"node", "fine"} ELSE {"node"}) :
      LET p == figs[Len(figs)][IF v = "x" THEN 1 ELSE 2] IN
      Cardinality({c \in 1..Len(p.curves) : p.curves[c].y[1][4] = i /\ p.curves[c].y[1][2] = kind /\ p.curves[c].y[1][3] = v}) = 1
AsRequested == (Fresh /\ last.e \in {"x", "u"} /\ last.groups # << >>) =>
   LET f == figs[Len(figs)] IN
   Len(f) = Len(last.groups) /\ \A i \in 1..Len(f) : {f[i].curves[c].y[1][4] : c \in 1..Len(f[i].curves)} = {last.groups[i][m] : m \in 1..Len(last.groups[i])}
\* named curves of a fresh panel have different names
NamesDiffer == (Fresh /\ \A i \in 1..Len(last.groups) : Cardinality({last.groups[i][m] : m \in 1..Len(last.groups[i])}) = Len(last.groups[i])) =>
   \A i \in 1..Len(figs[Len(figs)]) : LET p == figs[Len(figs)][i] IN
      \A a, b \in 1..Len(p.curves) : (a # b /\ p.curves[a].label # "" ) => p.curves[a].label # p.curves[b].label
SomethingNamed == (Fresh /\ last.e \notin {"norms", "report"}) => \A i \in 1..Len(figs[Len(figs)]) : \E c \in 1..Len(figs[Len(figs)][i].curves) : figs[Len(figs)][i].curves[c].label # ""
PositionsDiffer == \A f \in 1..Len(figs) : \A i, j \in 1..Len(figs[f]) : i # j => figs[f][i].pos # figs[f][j].pos
\* nothing drawn is ever lost, other figures stay as they are
OnlyAdds == [][\A f \in 1..Len(figs) : /\ Len(figs'[f]) = Len(figs[f])
                 /\ \A i \in 1..Len(figs[f]) : Len(figs'[f][i].curves) >= Len(figs[f][i].curves) /\ SubSeq(figs'[f][i].curves, 1, Len(figs[f][i].curves)) = figs[f][i].curves
                 /\ f # last'.on => figs'[f] = figs[f]]_vars
===============================================================================
