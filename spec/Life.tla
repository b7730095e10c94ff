---------------------------------- MODULE Life --------------------------------
(* Life of optimisers: the user owns a problem and edits it at will; an       *)
(* optimiser copies the problem when made; it transcribes on its first solve  *)
(* and on demand; solves, questions and failures leave everything else alone. *)
(* What is in force is named by versions: << problem version, settings >>.    *)
EXTENDS Rat, FiniteSets, TLC
None == << 0, "" >>
\* a new optimiser on version v of the problem
Fresh(v, set) == [cur |-> << v, set >>, built |-> None, made |-> 0]
\* settings changed; a reset forgets the transcription, otherwise it stays in force
SetTo(o, set, reset) == [o EXCEPT !.cur = << o.cur[1], set >>, !.built = IF reset THEN None ELSE o.built]
Builds(o, again) == o.built = None \/ again
SolveOn(o, again) == IF Builds(o, again) THEN [o EXCEPT !.built = o.cur, !.made = o.made + 1] ELSE o
\* --- solver inputs
Defaults(plugin) == IF plugin = "ipopt"
  THEN ("ipopt.max_iter" :> "2000") @@ ("ipopt.acceptable_tol" :> "0.0001") @@ ("ipopt.print_level" :> "0") @@ ("ipopt.sb" :> "'yes'") @@ ("print_time" :> "0")
  ELSE << >>
OptionsOf(plugin, own) == LET d == Defaults(plugin) IN
  [k \in DOMAIN own \cup DOMAIN d |-> IF k \in DOMAIN own THEN own[k] ELSE d[k]]
SameMap(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
\* start: "x" and "lamx", "lamg" where supplied; guess: the default start values
StartOf(start, guess) == IF "x" \in DOMAIN start THEN start.x ELSE guess
EqualWidths(segs, phases) == [k \in 1..(segs * phases) |-> RDiv(1, segs)]
==============================================================================
