--------------------------------- MODULE Steps --------------------------------
(* One refinement of the widths of all phases from a solution: the relation   *)
(* between the widths in force, the reported residuals and the new widths.    *)
(* c: problem (mesh, tolerances tolr), op: operators; old, new: widths of all *)
(* phases, segment by segment; r[p][s]: rows of residuals (one per point).    *)
EXTENDS Refine
SegMax(rs) == IF Len(rs) = 0 THEN R(0) ELSE RMaxOf([m \in 1..Len(rs) |-> RMaxOf([i \in 1..Len(rs[m]) |-> RAbs(rs[m][i])])])
PhaseMax(rp) == RMaxOf([s \in 1..Len(rp) |-> SegMax(rp[s])])
MaxError(r) == RMaxOf([p \in 1..Len(r) |-> PhaseMax(r[p])])
\* sizes at the points, a segment without points counting as one point without residual
Sizes(rp) == Cat([s \in 1..Len(rp) |-> IF Len(rp[s]) = 0 THEN << R(0) >>
                ELSE [m \in 1..Len(rp[s]) |-> RSqrt(RSum([i \in 1..Len(rp[s][m]) |-> RMul(rp[s][m][i], rp[s][m][i])]))]])
Part(w, n, p) == [s \in 1..n |-> w[(p - 1) * n + s]]
Threshold == "1/10"
\* where the controls change: position and 2-norm of their derivative (normalised time) at inner nodes
SlopePts(c, op, d) ==
  LET nm == NodeMap(c.orders)
      slope(n) == LET s == nm[n][1] IN RSqrt(RSum([i \in 1..c.nu |->
                     LET v == RMul(Jac(c), RDot(op[c.scheme][c.orders[s]].D[nm[n][2]], SegVals(c, d.U[i], s))) IN RMul(v, v)]))
      pos(n) == LET s == nm[n][1] IN RAdd(RSum([k \in 1..(s - 1) |-> d.wid[k]]),
                  RMul(d.wid[s], RDiv(RAdd(op[c.scheme][c.orders[s]].nodes[nm[n][2]], 1), 2)))
      all == [k \in 1..(NN(c) - 2) |-> << pos(k + 1), slope(k + 1) >>]
  IN Force(SelectSeq(all, LAMBDA x : RLe(Threshold, x[2])))
\* the rules; names of the parts that do not hold
PhaseStep(c, op, d, rp, tol, m, sub, old, new, lo, hi) ==
  LET n == Len(old) IN
  IF ~ValidMesh(new, n) THEN {"valid mesh"}
  ELSE IF RLt(PhaseMax(rp), tol) THEN (IF SameMesh(old, new) THEN {} ELSE {"phase within tolerance keeps its widths"})
  ELSE CASE m = "residual" /\ sub = "merge_split" ->
              IF MergeSplitRel([s \in 1..n |-> SegMax(rp[s])], old, tol, new) THEN {} ELSE {"merge and split"}
         [] m = "residual" /\ sub = "equal_area" ->
              IF EqualAreaRel(Sizes(rp), n, UnBlend(new, old)) THEN {} ELSE {"equal area"}
         [] m = "control_slope" ->
              LET pts == SlopePts(c, op, d) IN
              IF Len(pts) = 0 THEN (IF SameMesh(old, new) THEN {} ELSE {"no slope: same widths"})
              ELSE SlopeStep(pts, n, lo, hi, new)
         [] OTHER -> IF SameMesh(old, new) THEN {} ELSE {"unknown sub-method keeps widths"}
Equal(c) == [k \in 1..(c.np * NSeg(c)) |-> RDiv(1, NSeg(c))]
Undefined(m) == m \notin {"residual", "control_slope"}
NoStep(c, m) == NSeg(c) = 1 \/ Undefined(m)
Step(c, op, z, r, m, sub, old, new) ==
  LET n == NSeg(c) IN
  IF Len(new) # c.np * n THEN {"one width per segment and phase"}
  ELSE IF NoStep(c, m) THEN (IF SameMesh(new, Equal(c)) THEN {} ELSE {"equal widths where nothing is refined"})
  ELSE UNION {PhaseStep(c, op, PhaseData(c, z, old, p), r[p], c.tolr[p], m, sub, Part(old, n, p), Part(new, n, p), c.lbh[p], c.ubh[p]) : p \in 1..c.np}
=============================================================================
