------------------------------- MODULE Defaults -------------------------------
(* What a problem and an optimiser mean of which only some settings are made. *)
(* A partly described problem g has the fields of Ocp; a field that was never *)
(* set is missing; a field set for some phases (links) only is a sequence     *)
(* with << value >> for these and << >> for the others.                       *)
EXTENDS Ocp
Given(g, f, d) == IF f \in DOMAIN g THEN g[f] ELSE d
Each(g, f, d) == [p \in 1..Len(d) |-> IF f \in DOMAIN g /\ g[f][p] # << >> THEN g[f][p][1] ELSE d[p]]
All(n, v) == [i \in 1..n |-> v]
Filled(g) ==
  LET P == Given(g, "np", 1)  nx == Given(g, "nx", 1)  nu == Given(g, "nu", 1)  na == Given(g, "na", 0)
      each(f, d) == Each(g, f, All(P, d))
      link(f, d) == Each(g, f, All(P - 1, d))
  IN [np |-> P, nx |-> nx, nu |-> nu, na |-> na,
      \* nothing is scaled
      scx |-> Given(g, "scx", All(nx, 1)), scu |-> Given(g, "scu", All(nu, 1)), sca |-> Given(g, "sca", All(na, 1)), sct |-> Given(g, "sct", 1),
      \* states that do not change, no costs, no constraints
      dyn |-> each("dyn", All(nx, << >>)), path |-> each("path", << >>), term |-> each("term", << >>),
      lagr |-> each("lagr", << >>), mayer |-> each("mayer", << >>),
      \* no bounds but those of time, which starts at zero
      lbx |-> each("lbx", All(nx, "-inf")), ubx |-> each("ubx", All(nx, "inf")), lbu |-> each("lbu", All(nu, "-inf")), ubu |-> each("ubu", All(nu, "inf")),
      lba |-> each("lba", All(na, "-inf")), uba |-> each("uba", All(na, "inf")),
      lbt0 |-> each("lbt0", 0), ubt0 |-> Each(g, "ubt0", [p \in 1..P |-> IF p = 1 THEN 0 ELSE "inf"]), lbtf |-> each("lbtf", 0), ubtf |-> each("ubtf", "inf"),
      \* guesses are zero, from time zero to one
      x00 |-> each("x00", All(nx, 0)), xf0 |-> each("xf0", All(nx, 0)), u00 |-> each("u00", All(nu, 0)), uf0 |-> each("uf0", All(nu, 0)),
      a0 |-> each("a0", All(na, 0)), t00 |-> each("t00", 0), tf0 |-> each("tf0", 1),
      \* each phase follows the one before, without jump
      links |-> Given(g, "links", [l \in 1..(P - 1) |-> << l, l + 1 >>]), lbe |-> link("lbe", All(nx, 0)), ube |-> link("ube", All(nx, 0)),
      diffu |-> each("diffu", FALSE), midu |-> each("midu", TRUE), ducont |-> each("ducont", FALSE), lbdu |-> each("lbdu", -15), ubdu |-> each("ubdu", 15),
      \* the optimiser
      scheme |-> Given(g, "scheme", "LGR"), orders |-> Given(g, "orders", << 9 >>), lo |-> Given(g, "lo", -1), hi |-> Given(g, "hi", 1),
      adaptive |-> g.adaptive, lbh |-> each("lbh", "1/10000"), ubh |-> each("ubh", 1), tolr |-> each("tolr", "1/1000"), midres |-> Given(g, "midres", TRUE)]
=============================================================================
