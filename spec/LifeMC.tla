-------------------------------- MODULE LifeMC --------------------------------
(* Design check: all interleavings of two optimisers, the user's edits,       *)
(* settings, rebuilds and failing solves.                                     *)
EXTENDS Life, Sequences
CONSTANTS Ids, MaxProb, Sets, MaxOps
VARIABLES prob, opts, ops, asked, log
vars == << prob, opts, ops, asked, log >>
\* asked[i]: reasons to transcribe so far (first solve, rebuilds, resets before a solve)
Init == prob = 1 /\ opts = << >> /\ ops = 0 /\ asked = << >> /\ log = << >>
Step == ops < MaxOps /\ ops' = ops + 1
Live == 1..Len(opts)
Edit == Step /\ prob < MaxProb /\ prob' = prob + 1 /\ log' = << "edit" >> /\ UNCHANGED << opts, asked >>
New == /\ Step /\ Len(opts) < Ids /\ \E s \in Sets : opts' = Append(opts, Fresh(prob, s))
       /\ asked' = Append(asked, 1) /\ log' = << "new" >> /\ UNCHANGED prob
Set(i) == /\ Step /\ \E s \in Sets, r \in BOOLEAN :
               /\ opts' = [opts EXCEPT ![i] = SetTo(@, s, r)]
               /\ asked' = [asked EXCEPT ![i] = @ + (IF r /\ opts[i].built # None THEN 1 ELSE 0)]
          /\ log' = << "set", i >> /\ UNCHANGED prob
\* the solver may fail after the transcription: nothing else changes
Solve(i) == /\ Step /\ \E again \in BOOLEAN, fails \in BOOLEAN :
                 /\ opts' = [opts EXCEPT ![i] = SolveOn(@, again)]
                 /\ asked' = [asked EXCEPT ![i] = @ + (IF again /\ opts[i].built # None THEN 1 ELSE 0)]
                 /\ log' = << "solve", i, again, fails >>
            /\ UNCHANGED prob
Ask(i) == Step /\ opts[i].made > 0 /\ log' = << "ask", i >> /\ UNCHANGED << prob, opts, asked >>
Next == Edit \/ New \/ \E i \in Live : Set(i) \/ Solve(i) \/ Ask(i)
Spec == Init /\ [][Next]_vars
TranscribesOnlyWhenAsked == \A i \in Live : opts[i].made <= asked[i]
BuiltIsAVersion == \A i \in Live : opts[i].built = None \/ opts[i].built[1] = opts[i].cur[1]
RebuildIsEffective == [][log'[1] = "solve" => LET o == opts'[log'[2]] IN o.built # None /\ (log'[3] => o.built = o.cur)]_vars
OnlyThatOne == [][/\ log'[1] \in {"set", "solve", "ask"} => prob' = prob /\ \A i \in Live : i = log'[2] \/ opts'[i] = opts[i]
                  /\ log'[1] \in {"edit", "new"} => \A i \in Live : opts'[i] = opts[i]]_vars
CopyOfTheProblem == [][\A i \in Live : opts'[i].cur[1] = opts[i].cur[1]]_vars
WithoutRebuildNothingChanges == [][(log'[1] = "solve" /\ ~log'[3] /\ opts[log'[2]].built # None) => opts' = opts]_vars
==============================================================================
