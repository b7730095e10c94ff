------------------------------- MODULE Validate -------------------------------
(* Which problems are consistent.  A problem is described by its numbers of   *)
(* phases (np), states (nx), controls (nu), parameters (na) and               *)
(*   nfun:  lengths of the five lists of functions                            *)
(*   fun:   per phase, what the functions give at the guess: ndyn (number of  *)
(*          values), run, end (a cost value or not), path, term (number of    *)
(*          constraint values, -1 for none)                                   *)
(*   scale: lengths of the scale vectors of states, controls, parameters      *)
(*   shape: shapes of guesses and bounds (arrays with rows and columns)       *)
(*   bound: pairs << lower, upper >> of every bound                           *)
EXTENDS Rat, FiniteSets
RowsX == {"x00", "xf0", "lbx", "ubx"}
RowsU == {"u00", "uf0", "lbu", "ubu"}
RowsA == {"a0", "lba", "uba"}
RowsT == {"t00", "tf0", "lbt0", "ubt0", "lbtf", "ubtf"}
Jumps == {"lbe", "ube"}
Names == RowsX \cup RowsU \cup RowsA \cup RowsT \cup Jumps
Shape(p, nm) == CASE nm \in RowsX -> << p.np, p.nx >> [] nm \in RowsU -> << p.np, p.nu >>
                  [] nm \in RowsA -> << p.np, p.na >> [] nm \in RowsT -> << p.np, 1 >>
                  [] nm \in Jumps -> << p.np - 1, p.nx >>
\* without links there are no columns to count
SameShape(p, nm) == IF nm \in Jumps /\ p.np = 1 THEN p.shape[nm][1] = 0 ELSE p.shape[nm] = Shape(p, nm)
Faults(p) ==
  {"functions per phase" : i \in {i \in 1..5 : p.nfun[i] # p.np}}
  \cup {"scale" : i \in {i \in 1..3 : p.scale[i] # << p.nx, p.nu, p.na >>[i]}}
  \cup {"size of " \o nm : nm \in {nm \in Names : ~SameShape(p, nm)}}
  \cup UNION {(IF p.fun[k].ndyn # p.nx THEN {"dynamics"} ELSE {})
              \cup (IF ~p.fun[k].run THEN {"running cost"} ELSE {})
              \cup (IF ~p.fun[k].end THEN {"terminal cost"} ELSE {})
              \cup (IF p.fun[k].path = 0 THEN {"path constraints"} ELSE {})
              \cup (IF p.fun[k].term = 0 THEN {"terminal constraints"} ELSE {}) : k \in 1..Len(p.fun)}
  \cup {"bounds cross" : b \in {b \in 1..Len(p.bound) : ~RLe(p.bound[b][1], p.bound[b][2])}}
Consistent(p) == p.np > 0 /\ Faults(p) = {}
===============================================================================
