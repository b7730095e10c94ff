--------------------------------- MODULE Ocp ---------------------------------
(* An optimal control problem with polynomial user functions, a mesh, and the *)
(* meaning of a vector of unknowns for them.  A problem is a record c:        *)
(*   np, nx, nu, na          numbers of phases, states, controls, parameters  *)
(*   scx, scu, sca, sct      scaling factors                                  *)
(*   dyn[p], path[p], term[p] sequences of polynomials; lagr[p], mayer[p]     *)
(*   lbx[p] ... ubtf[p]      bounds; x00 ... a0 guesses; links, lbe, ube      *)
(*   diffu[p], midu[p], ducont[p], lbdu[p], ubdu[p]  options                  *)
(*   scheme, orders, lo, hi  mesh; widths[p] unknown iff adaptive             *)
(* A polynomial is a sequence of terms << coefficient, <<< var, power >>..>>. *)
(* Variables of dyn, path, lagr: states, controls, time, parameters;          *)
(* of term and mayer: final states, final time, first states, first time,     *)
(* parameters.                                                                *)
EXTENDS Colloc

PolyVal(p, v) ==
  RSum([m \in 1..Len(p) |->
     RMul(p[m][1], RProd([k \in 1..Len(p[m][2]) |-> RPow(v[p[m][2][k][1]], p[m][2][k][2])]))])

NSeg(c) == Len(c.orders)
NN(c) == NodeCount(c.orders)

\* --- the decision vector: which unknown sits where
RECURSIVE Concat(_, _)
Concat(ss, k) == IF k = 0 THEN << >> ELSE Concat(ss, k - 1) \o ss[k]
Cat(ss) == Concat(ss, Len(ss))
Grid(n1, n2, F(_, _)) == [k \in 1..(n1 * n2) |-> F(((k - 1) \div n2) + 1, ((k - 1) % n2) + 1)]
PhaseUnknowns(c, p) ==
     Grid(c.nx, NN(c), LAMBDA i, n : << "x", p, i, n >>)
  \o Grid(c.nu, NN(c), LAMBDA i, n : << "u", p, i, n >>)
  \o << << "t0", p, 1, 1 >>, << "tf", p, 1, 1 >> >>
  \o [i \in 1..c.na |-> << "a", p, i, 1 >>]
  \o IF c.adaptive THEN [s \in 1..NSeg(c) |-> << "h", p, s, 1 >>] ELSE << >>
PhaseLen(c) == (c.nx + c.nu) * NN(c) + 2 + c.na + IF c.adaptive THEN NSeg(c) ELSE 0
Offset(c, p) == (p - 1) * PhaseLen(c)
UScale(c, d) == CASE d[1] = "x" -> c.scx[d[3]] [] d[1] = "u" -> c.scu[d[3]]
                  [] d[1] \in {"t0", "tf"} -> c.sct [] d[1] = "a" -> c.sca[d[3]] [] d[1] = "h" -> 1
Pinned(d) == d[1] = "x" /\ d[2] = 1 /\ d[4] = 1
ULower(c, d) ==
  LET p == d[2]  i == d[3] IN RMul(UScale(c, d),
  CASE d[1] = "x" -> IF Pinned(d) THEN c.x00[1][i] ELSE c.lbx[p][i]
    [] d[1] = "u" -> c.lbu[p][i] [] d[1] = "t0" -> c.lbt0[p] [] d[1] = "tf" -> c.lbtf[p]
    [] d[1] = "a" -> c.lba[p][i] [] d[1] = "h" -> c.lbh[p])
UUpper(c, d) ==
  LET p == d[2]  i == d[3] IN RMul(UScale(c, d),
  CASE d[1] = "x" -> IF Pinned(d) THEN c.x00[1][i] ELSE c.ubx[p][i]
    [] d[1] = "u" -> c.ubu[p][i] [] d[1] = "t0" -> c.ubt0[p] [] d[1] = "tf" -> c.ubtf[p]
    [] d[1] = "a" -> c.uba[p][i] [] d[1] = "h" -> c.ubh[p])
\* The default guess of an unknown, scaled.
Line(a, b, k, n) == RAdd(a, RMul(RSub(b, a), RDiv(k, n)))
UGuess(c, d) ==
  LET p == d[2]  i == d[3]  k == d[4] - 1  n == NN(c) - 1 IN RMul(UScale(c, d),
  CASE d[1] = "x" -> Line(c.x00[p][i], c.xf0[p][i], k, n)
    [] d[1] = "u" -> Line(c.u00[p][i], c.uf0[p][i], k, n)
    [] d[1] = "t0" -> c.t00[p] [] d[1] = "tf" -> c.tf0[p] [] d[1] = "a" -> c.a0[p][i]
    [] d[1] = "h" -> RDiv(1, NSeg(c)))

\* --- operators of the mesh, in code units of the normalised interval
Jac(c) == RDiv(2, RSub(c.hi, c.lo))          \* d reference / d tau
Ref(c, tau) == RSub(RDiv(RMul(2, RSub(tau, c.lo)), RSub(c.hi, c.lo)), 1)

\* operator table entry of one scheme and degree
OpsOf(scheme, d) ==
  LET ns == RefNodes(scheme, d)
      b == Basis(ns)
      mids == [i \in 1..d |-> RDiv(RAdd(ns[i], ns[i + 1]), 2)]
  IN Force([nodes |-> ns, basis |-> b, mids |-> mids, W |-> IntRow(b, -1, 1),
              D |-> [i \in 1..(d + 1) |-> DerRow(b, ns[i], 1)],
              MI |-> [i \in 1..d |-> DerRow(b, mids[i], 0)],
              MD |-> [i \in 1..d |-> DerRow(b, mids[i], 1)]])

\* --- one phase of a trajectory.  z: all unknowns; w: widths of all phases (fixed
\*     widths), segment by segment, phase by phase.
PhaseData(c, z, w, p) ==
  LET N == NN(c)
      o == Offset(c, p)
      X == [i \in 1..c.nx |-> [n \in 1..N |-> R(z[o + (i - 1) * N + n])]]
      U == [i \in 1..c.nu |-> [n \in 1..N |-> R(z[o + c.nx * N + (i - 1) * N + n])]]
      q == o + (c.nx + c.nu) * N
      t0 == RDiv(z[q + 1], c.sct)
      tf == RDiv(z[q + 2], c.sct)
      wid == [s \in 1..NSeg(c) |-> IF c.adaptive THEN R(z[q + 2 + c.na + s]) ELSE R(w[(p - 1) * NSeg(c) + s])]
  IN Force([X |-> X, U |-> U, t0 |-> t0, tf |-> tf, wid |-> wid,
              a |-> [i \in 1..c.na |-> RDiv(z[q + 2 + i], c.sca[i])],
              h |-> [s \in 1..NSeg(c) |-> RRnd(RDiv(RMul(RSub(tf, t0), wid[s]), RSub(c.hi, c.lo)))]])
\* physical time at reference position r of segment s
TimeAt(d, s, r) ==
  RRnd(RAdd(d.t0, RMul(RSub(d.tf, d.t0),
     RAdd(RSum([k \in 1..(s - 1) |-> d.wid[k]]), RMul(d.wid[s], RDiv(RAdd(r, 1), 2))))))
OrigTimes(c, op, d) == [n \in 1..NN(c) |-> LET o == NodeMap(c.orders)[n] IN TimeAt(d, o[1], op[c.scheme][c.orders[o[1]]].nodes[o[2]])]
\* arguments of dyn, path, lagr for scaled states xs and controls us
Args(c, d, xs, us, t) ==
  Force([i \in 1..c.nx |-> RRnd(RDiv(xs[i], c.scx[i]))] \o [i \in 1..c.nu |-> RRnd(RDiv(us[i], c.scu[i]))]
          \o << t >> \o d.a)
\* arguments of term, mayer
EndArgs(c, d) ==
  LET N == NN(c) IN
  Force([i \in 1..c.nx |-> RDiv(d.X[i][N], c.scx[i])] \o << d.tf >>
          \o [i \in 1..c.nx |-> RDiv(d.X[i][1], c.scx[i])] \o << d.t0 >> \o d.a)
\* values of a node function of segment s
SegVals(c, v, s) == LET f == FirstNode(c.orders, s) IN [k \in 1..(c.orders[s] + 1) |-> v[f + k - 1]]
=============================================================================
