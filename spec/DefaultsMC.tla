------------------------------ MODULE DefaultsMC ------------------------------
(* Settings made one by one, in any order, on problems of all small sizes:    *)
(* what is set is kept, everything else keeps its default, and a problem      *)
(* stays complete and consistent at every moment.                             *)
EXTENDS Defaults
CONSTANTS MaxPhases, MaxStates, MaxSet
VARIABLES g, n
vars == << g, n >>
Ph(h) == Given(h, "np", 1)
Xs(h) == Given(h, "nx", 1)
PhaseFields == {"lbx", "x00", "ubt0", "tf0", "midu", "lbdu"}
Value(h, f) == CASE f = "lbx" -> All(Xs(h), -4) [] f = "x00" -> All(Xs(h), 3) [] f = "ubt0" -> 2 [] f = "tf0" -> 7 [] f = "midu" -> FALSE [] f = "lbdu" -> -2
Init == /\ n = 0
        /\ \E p \in 1..MaxPhases, x \in 1..MaxStates, a \in 0..1, ad \in BOOLEAN :
             g \in {[np |-> p, nx |-> x, na |-> a, adaptive |-> ad], [adaptive |-> ad]}
SetPhase == \E f \in PhaseFields, p \in 1..Ph(g) :
   g' = [h \in DOMAIN g \cup {f} |->
           IF h # f THEN g[h]
           ELSE [q \in 1..Ph(g) |-> IF q = p THEN << Value(g, f) >> ELSE IF f \in DOMAIN g THEN g[f][q] ELSE << >>]]
SetWhole == \E s \in {<< "orders", << 2, 3 >> >>, << "scheme", "CGL" >>, << "links", << >> >>, << "sct", 5 >>} :
   g' = [h \in DOMAIN g \cup {s[1]} |-> IF h = s[1] THEN s[2] ELSE g[h]]
Next == n < MaxSet /\ n' = n + 1 /\ (SetPhase \/ SetWhole)
Spec == Init /\ [][Next]_vars
F == Filled(g)
IsSet(f, p) == f \in DOMAIN g /\ g[f][p] # << >>
Empty == Filled([h \in DOMAIN g \cap {"np", "nx", "na", "adaptive"} |-> g[h]])
Kept == \A f \in PhaseFields : \A p \in 1..F.np : IF IsSet(f, p) THEN F[f][p] = Value(g, f) ELSE F[f][p] = Empty[f][p]
Others == \A f \in DOMAIN F \ DOMAIN g : F[f] = Empty[f]
Lengths == /\ \A f \in {"lbx", "ubx", "x00", "xf0"} : Len(F[f]) = F.np /\ \A p \in 1..F.np : Len(F[f][p]) = F.nx
           /\ \A f \in {"lbu", "ubu", "u00", "uf0"} : Len(F[f]) = F.np /\ \A p \in 1..F.np : Len(F[f][p]) = F.nu
           /\ \A f \in {"lba", "uba", "a0"} : Len(F[f]) = F.np /\ \A p \in 1..F.np : Len(F[f][p]) = F.na
           /\ \A f \in {"dyn", "path", "term", "lagr", "mayer", "lbt0", "ubt0", "lbtf", "ubtf", "t00", "tf0", "diffu", "midu", "ducont", "lbdu", "ubdu"} : Len(F[f]) = F.np
           /\ Len(F.lbe) = F.np - 1 /\ Len(F.ube) = F.np - 1 /\ Len(F.links) \in {0, F.np - 1}
           /\ Cat([p \in 1..F.np |-> PhaseUnknowns(F, p)]) # << >> /\ Len(PhaseUnknowns(F, 1)) = PhaseLen(F)
Order(lo, hi) == \A p \in 1..Len(lo) : \A i \in 1..Len(lo[p]) : RLe(lo[p][i], hi[p][i])
One(s) == [p \in 1..Len(s) |-> << s[p] >>]
BoundsMeet == /\ Order(F.lbx, F.ubx) /\ Order(F.lbu, F.ubu) /\ Order(F.lba, F.uba) /\ Order(F.lbe, F.ube)
              /\ Order(One(F.lbt0), One(F.ubt0)) /\ Order(One(F.lbtf), One(F.ubtf))
\* while no guess or bound is set the guess lies within the bounds, and time runs forward
Start == (DOMAIN g \subseteq {"np", "nx", "na", "adaptive"}) =>
  \A p \in 1..F.np : \A k \in 1..PhaseLen(F) :
    LET d == PhaseUnknowns(F, p)[k] IN RLe(ULower(F, d), UGuess(F, d)) /\ RLe(UGuess(F, d), UUpper(F, d))
=============================================================================
