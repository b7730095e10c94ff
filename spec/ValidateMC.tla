------------------------------ MODULE ValidateMC ------------------------------
(* Design check: a validator that looks at one thing at a time, in any order, *)
(* accepts exactly the consistent problems; over all small problems with at   *)
(* most Faulty deviations from the sizes implied.                             *)
EXTENDS Validate, TLC
CONSTANTS Faulty
VARIABLES p, left, todo, verdict
vars == << p, left, todo, verdict >>
Base(np, nx, nu, na) ==
  [np |-> np, nx |-> nx, nu |-> nu, na |-> na, nfun |-> [i \in 1..5 |-> np],
   fun |-> [k \in 1..np |-> [ndyn |-> nx, run |-> TRUE, end |-> TRUE, path |-> -1, term |-> -1]],
   scale |-> << nx, nu, na >>,
   shape |-> [nm \in Names |-> IF nm \in Jumps /\ np = 1 THEN << 0, 0 >> ELSE Shape([np |-> np, nx |-> nx, nu |-> nu, na |-> na], nm)],
   bound |-> << << "-inf", "inf" >>, << "0", "0" >>, << "-1", "2" >> >>]
Checks == {"lists", "scales", "sizes", "functions", "bounds"}
Init == /\ \E np \in 1..2, nx \in 1..2, nu \in {1}, na \in 0..1 : p = Base(np, nx, nu, na)
        /\ left = Faulty /\ todo = Checks /\ verdict = "open"
Change(q) == left > 0 /\ todo = Checks /\ verdict = "open" /\ p' = q /\ left' = left - 1 /\ UNCHANGED << todo, verdict >>
Off(n) == {n - 1, n + 1} \cap Nat
Spoil ==
  \/ \E i \in 1..5 : \E v \in Off(p.nfun[i]) : Change([p EXCEPT !.nfun[i] = v])
  \/ \E i \in 1..3 : \E v \in Off(p.scale[i]) : Change([p EXCEPT !.scale[i] = v])
  \/ \E nm \in Names, j \in 1..2 : \E v \in Off(p.shape[nm][j]) : Change([p EXCEPT !.shape[nm][j] = v])
  \/ \E k \in 1..p.np : \/ \E v \in Off(p.fun[k].ndyn) : Change([p EXCEPT !.fun[k].ndyn = v])
                        \/ Change([p EXCEPT !.fun[k].run = FALSE]) \/ Change([p EXCEPT !.fun[k].end = FALSE])
                        \/ \E v \in {0, 2} : Change([p EXCEPT !.fun[k].path = v]) \/ Change([p EXCEPT !.fun[k].term = v])
  \/ \E b \in 1..3 : Change([p EXCEPT !.bound[b] = << "3", "2" >>])
Bad(c) == CASE c = "lists" -> \E i \in 1..5 : p.nfun[i] # p.np
            [] c = "scales" -> p.scale # << p.nx, p.nu, p.na >>
            [] c = "sizes" -> \E nm \in Names : ~SameShape(p, nm)
            [] c = "functions" -> \E k \in 1..p.np : LET f == p.fun[k] IN f.ndyn # p.nx \/ ~f.run \/ ~f.end \/ f.path = 0 \/ f.term = 0
            [] c = "bounds" -> \E b \in 1..Len(p.bound) : RLt(p.bound[b][2], p.bound[b][1])
Look == /\ verdict = "open"
        /\ IF todo = {} THEN verdict' = "accept" /\ UNCHANGED todo
           ELSE \E c \in todo : todo' = todo \ {c} /\ verdict' = (IF Bad(c) THEN "reject" ELSE "open")
        /\ UNCHANGED << p, left >>
Next == Spoil \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Look)
Right == verdict # "open" => (verdict = "accept") = Consistent(p)
Decides == <>(verdict # "open")
===============================================================================
