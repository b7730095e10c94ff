------------------------------ MODULE EndToEndMC ------------------------------
(* Design check of the conditions of EndToEnd, exhaustively over small meshes: *)
(* an exact trajectory violates none and has the exact cost; when one value of *)
(* it is moved a condition is violated; when one part of the problem is made   *)
(* incompatible with it, exactly the conditions about that part are.           *)
EXTENDS EndToEnd
CONSTANTS Meshes
QMeshes == { << 2 >>, << 2, 3 >> }
TMeshes == { << 2 >>, << 3 >>, << 5 >>, << 2, 2 >>, << 2, 3 >>, << 4, 2 >>, << 3, 2, 4 >>, << 2, 2, 2, 2 >> }
VARIABLES m, c, r, moved, cut
vars == << m, c, r, moved, cut >>
Degs == UNION {{q[i] : i \in 1..Len(q)} : q \in Meshes}
Op == Force([s \in {"LGR", "LGL", "CGL"} |-> [d \in Degs |-> OpsOf(s, d)]])
\* x' = u + t + a, u = t, a = 1/2, x = t^2 + a t on [0,1] and [1,2]; the state jumps by 1 at the link
V(k, pw) == << k, pw >>
Prob(s, mesh) ==
  [np |-> 2, nx |-> 1, nu |-> 1, na |-> 1, scheme |-> s, orders |-> mesh, lo |-> 0, hi |-> 1,
   dyn |-> [p \in 1..2 |-> << << << 1, << V(2, 1) >> >>, << 1, << V(3, 1) >> >>, << 1, << V(4, 1) >> >> >> >>],
   path |-> [p \in 1..2 |-> << << << 1, << V(1, 1) >> >>, << 1, << V(2, 1) >> >>, << -10, << >> >> >> >>],
   term |-> << << << << 1, << V(2, 1) >> >>, << -1, << V(3, 1) >> >>, << "-3/2", << >> >>, << 1, << V(5, 1) >> >> >> >>, << >> >>,
   lagr |-> [p \in 1..2 |-> << << 1, << V(2, 2) >> >>, << 1, << V(1, 1) >> >> >>],
   mayer |-> << << << 1, << V(1, 1) >> >> >>, << << 2, << V(3, 1) >> >> >> >>,
   lbx |-> << << -1 >>, << -1 >> >>, ubx |-> << << 5 >>, << 7 >> >>, lbu |-> << << 0 >>, << 1 >> >>, ubu |-> << << 1 >>, << 2 >> >>,
   lba |-> << << 0 >>, << 0 >> >>, uba |-> << << 1 >>, << 1 >> >>, lbt0 |-> << 0, 1 >>, ubt0 |-> << 0, 1 >>, lbtf |-> << 1, 2 >>, ubtf |-> << 1, 3 >>,
   x00 |-> << << 0 >>, << 9 >> >>, diffu |-> << TRUE, FALSE >>, lbdu |-> << 0, 5 >>, ubdu |-> << 1, 6 >>,
   links |-> << << 1, 2 >> >>, lbe |-> << << 1 >> >>, ube |-> << << 1 >> >>]
Known == [xs |-> << << << << "1/2", << V(1, 1) >> >>, << 1, << V(1, 2) >> >> >> >>, << << << 1, << >> >>, << "1/2", << V(1, 1) >> >>, << 1, << V(1, 2) >> >> >> >> >>,
          us |-> [p \in 1..2 |-> << << << 1, << V(1, 1) >> >> >> >>], ts |-> << << 0, 1 >>, << 1, 2 >> >>, as |-> [p \in 1..2 |-> << "1/2" >>]]
Wid(mesh, wide) == LET k == Len(mesh) IN
  [s \in 1..k |-> IF wide /\ k > 1 THEN (IF s = 2 THEN RDiv(5, 8) ELSE RDiv(3, 8 * (k - 1))) ELSE RDiv(1, k)]
Times(pr, wide, p) == LET nm == NodeMap(pr.orders)  w == Wid(pr.orders, wide) IN
  [n \in 1..NN(pr) |-> Force(RAdd(p - 1, RAdd(RSum([j \in 1..(nm[n][1] - 1) |-> w[j]]),
                       RMul(w[nm[n][1]], RDiv(RAdd(Op[pr.scheme][pr.orders[nm[n][1]]].nodes[nm[n][2]], 1), 2)))))]
Exact(pr, wide) == OnNodes(pr, Known, [p \in 1..2 |-> [t |-> Times(pr, wide, p)]])
Tol == "1/1000000"
Init == \E s \in {"LGR", "LGL", "CGL"}, q \in Meshes, wide \in BOOLEAN :
  m = << s, q, wide >> /\ c = Prob(s, q) /\ r = Exact(c, wide) /\ moved = FALSE /\ cut = {}
Up(v) == RAdd(v, "1/16")
Pristine == ~moved /\ cut = {}
Move == /\ Pristine /\ moved' = TRUE /\ UNCHANGED << m, c, cut >>
        /\ \E p \in 1..2, n \in 1..NN(c) :
             \/ r' = [r EXCEPT ![p].x[n][1] = Up(@)]
             \/ r' = [r EXCEPT ![p].u[n][1] = Up(@)]
             \/ r' = [r EXCEPT ![p].t[n] = Up(@)]
             \/ n = 1 /\ r' = [r EXCEPT ![p].a[1] = Up(@)]
             \/ n = 1 /\ r' = [r EXCEPT ![p].x[1][1] = "nan"]
             \/ n = 1 /\ r' = [r EXCEPT ![p].u = SubSeq(@, 1, Len(@) - 1)]
Cut == /\ Pristine /\ UNCHANGED << m, r, moved >>
       /\ \/ c' = [c EXCEPT !.x00[1][1] = 1] /\ cut' = {"initial state"}
          \/ c' = [c EXCEPT !.ubx[2][1] = 5] /\ cut' = {"bounds"}
          \/ c' = [c EXCEPT !.lbu[2][1] = "17/16"] /\ cut' = {"bounds"}
          \/ c' = [c EXCEPT !.lba[1][1] = "5/8"] /\ cut' = {"bounds"}
          \/ c' = [c EXCEPT !.lbtf[2] = 3] /\ cut' = {"bounds"}
          \/ c' = [c EXCEPT !.ubt0[1] = -1] /\ cut' = {"bounds"}
          \/ c' = [c EXCEPT !.lbdu[1] = 2] /\ cut' = {"control rates"}
          \/ c' = [c EXCEPT !.diffu[2] = TRUE] /\ cut' = {"control rates"}
          \/ c' = [c EXCEPT !.path[2][1][3][1] = -7] /\ cut' = {"path constraints"}
          \/ c' = [c EXCEPT !.term[1][1][3][1] = 1] /\ cut' = {"terminal constraints"}
          \/ c' = [c EXCEPT !.lbe[1][1] = 2] /\ cut' = {"links"}
          \/ c' = [c EXCEPT !.links[1] = << 2, 1 >>] /\ cut' = {"links"}
          \/ c' = [c EXCEPT !.dyn[2][1][2][1] = 2] /\ cut' = {"dynamics"}
Next == Move \/ Cut
Spec == Init /\ [][Next]_vars
ExactHolds == Pristine => Broken(c, Op, r, Tol) = {}
CostExact == Pristine => RNear(Cost(c, Op, r), RSum(<< RDiv(11, 12), RDiv(77, 12), "3/2", 5 >>), Tol)
MovesShow == moved => Broken(c, Op, r, Tol) # {}
CutsShow == cut # {} => Broken(c, Op, r, Tol) = cut
KnownHolds == Pristine => IsKnown(c, Known, r, Tol)
KnownMoves == moved /\ Shape(c, r) => ~IsKnown(c, Known, r, Tol)
===============================================================================
