-------------------------------- MODULE Refine --------------------------------
(* Refinement of segment widths.  Widths of one phase are a sequence of       *)
(* positive rationals with sum one; a boundary is a cumulative width.  Each   *)
(* rule is stated twice: as a relation between old and new widths (what every *)
(* implementation must do) and as a construction (a design that does it).     *)
EXTENDS Ocp

WTol == "1/1000000000"
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
Cum(wid, s) == RSum([k \in 1..s |-> wid[k]])      \* boundary after s segments
Bounds(wid) == [s \in 1..Len(wid) |-> Cum(wid, s)]
ValidMesh(wid, n) == /\ Len(wid) = n
                     /\ \A s \in 1..n : RFin(wid[s]) /\ RLt(0, wid[s])
                     /\ Near(RSum(wid), 1, WTol)
SameMesh(a, b) == Len(a) = Len(b) /\ \A s \in 1..Len(a) : Near(a[s], b[s], WTol)

\* --- merge / split
\* runs of neighbouring segments with the same verdict: << first, last >>
IsIn(r, tol, s) == RLt(r[s], tol)
RECURSIVE RunsFrom(_, _, _)
RunsFrom(r, tol, s) ==
  IF s > Len(r) THEN << >>
  ELSE LET e == CHOOSE e \in s..Len(r) : /\ \A k \in s..e : IsIn(r, tol, k) = IsIn(r, tol, s)
                                         /\ e = Len(r) \/ IsIn(r, tol, e + 1) # IsIn(r, tol, s)
       IN << << s, e >> >> \o RunsFrom(r, tol, e + 1)
Runs(r, tol) == RunsFrom(r, tol, 1)
NothingToMove(r, tol) == (\A s \in 1..Len(r) : IsIn(r, tol, s)) \/ Len(Runs(r, tol)) = Len(r)
MergeSplitRel(r, old, tol, new) ==
  IF NothingToMove(r, tol) THEN SameMesh(old, new)
  ELSE LET runs == Force(Runs(r, tol))
           nb == Force(Bounds(new))
           at(g) == LET e == runs[g][2] IN {j \in 1..Len(new) : Near(nb[j], Cum(old, e), WTol)} IN
       /\ ValidMesh(new, Len(old))
       /\ \A g \in 1..Len(runs) : at(g) # {}
       /\ \A g \in 1..Len(runs) :
            LET hi == CHOOSE j \in at(g) : TRUE
                lo == IF g = 1 THEN 0 ELSE CHOOSE j \in at(g - 1) : TRUE
            IN /\ hi > lo
               /\ IsIn(r, tol, runs[g][1]) => hi = lo + 1
               /\ \A j \in (lo + 1)..hi : Near(new[j], new[hi], WTol)
\* design: every out-of-tolerance run gets its share of the freed segments, the last the rest
RunWidth(old, run) == RSum([k \in 1..(run[2] - run[1] + 1) |-> old[run[1] + k - 1]])
MergeSplit(r, old, tol) ==
  IF NothingToMove(r, tol) THEN old
  ELSE LET runs == Runs(r, tol)
           out == SelectSeq(runs, LAMBDA g : ~IsIn(r, tol, g[1]))
           free == Len(old) - Len(runs)
           part(g) == IF IsIn(r, tol, g[1]) THEN 1
                      ELSE 1 + (free \div Len(out)) + IF g = out[Len(out)] THEN free % Len(out) ELSE 0
       IN Cat([k \in 1..Len(runs) |-> [j \in 1..part(runs[k]) |-> RDiv(RunWidth(old, runs[k]), part(runs[k]))]])

\* --- equal area.  res: residual sizes at equally spaced points
Areas(res) == Force([i \in 1..(Len(res) - 1) |-> RDiv(RAdd(res[i], res[i + 1]), 2)])
\* cumulative area at position y in 0..1, interpolated between the points
AreaAt(cum, y) ==
  LET n == Len(cum) - 1                    \* number of cells
      p == RMul(y, n)
      k == LET f == RFloor(p) IN IF f < 0 THEN 0 ELSE IF f > n - 1 THEN n - 1 ELSE f
  IN RAdd(cum[k + 1], RMul(RSub(p, k), RSub(cum[k + 2], cum[k + 1])))
CumArea(res) == LET a == Areas(res) IN
  Force([k \in 1..Len(res) |-> RSum([i \in 1..(k - 1) |-> a[i]])])
EqualAreaRel(res, n, new) ==
  LET cum == CumArea(res)  tot == cum[Len(cum)]  nb == Bounds(new) IN
  /\ ValidMesh(new, n)
  /\ \A k \in 1..(n - 1) : Near(RDiv(AreaAt(cum, nb[k]), tot), RDiv(k, n), "1/100000000")
EqualArea(res, n) ==
  LET cum == CumArea(res)  tot == cum[Len(cum)]
      pos(k) == LET want == RDiv(RMul(k, tot), n)
                    i == CHOOSE i \in 2..Len(cum) : RLe(want, cum[i]) /\ \A j \in 2..(i - 1) : RLt(cum[j], want)
                IN IF k = n THEN R(1)
                   ELSE RDiv(RAdd(i - 2, RDiv(RSub(want, cum[i - 1]), RSub(cum[i], cum[i - 1]))), Len(res) - 1)
  IN [k \in 1..n |-> RSub(pos(k), IF k = 1 THEN R(0) ELSE pos(k - 1))]
\* iterative refinement goes 40 % of the way
Blend(a, old) == [s \in 1..Len(old) |-> RAdd(RMul("2/5", a[s]), RMul("3/5", old[s]))]
UnBlend(new, old) == [s \in 1..Len(old) |-> RDiv(RSub(new[s], RMul("3/5", old[s])), "2/5")]

\* --- control slope.  pts: candidates << position 0..1, slope >>, all positions inside
\* boundaries are the steepest candidates; with too few candidates all are boundaries
SlopeRel(pts, n, new, tol) ==
  LET nb == Force(Bounds(new))
      isb(y) == \E j \in 1..(n - 1) : Near(nb[j], y, tol)
      used == {k \in 1..Len(pts) : isb(pts[k][1])} IN
  /\ ValidMesh(new, n)
  /\ IF Len(pts) <= n - 1 THEN used = 1..Len(pts)
     ELSE /\ Cardinality(used) >= n - 1
          /\ \A j \in 1..(n - 1) : \E k \in 1..Len(pts) : Near(nb[j], pts[k][1], tol)
          /\ \A k \in 1..Len(pts) : (\A u \in used : RLt(RMul(pts[u][2], "1000001/1000000"), pts[k][2])) => k \in used
          /\ \A k \in (1..Len(pts)) \ used : Cardinality({u \in 1..Len(pts) : RLt(RMul(pts[k][2], "999999/1000000"), pts[u][2]) /\ u # k}) >= n - 1
\* design: sort the n-1 steepest by position; spare segments go to the two ends
RECURSIVE SortBy(_, _)
SortBy(S, f) == IF S = {} THEN << >>
                ELSE LET m == CHOOSE x \in S : \A y \in S : RLe(f[x], f[y]) IN << m >> \o SortBy(S \ {m}, f)
RECURSIVE Steepest(_, _, _)
Steepest(pts, S, k) == IF k = 0 \/ S = {} THEN {}
  ELSE LET m == CHOOSE x \in S : \A y \in S : RLe(pts[y][2], pts[x][2]) IN {m} \cup Steepest(pts, S \ {m}, k - 1)
Slope(pts, n) ==
  LET S == Steepest(pts, 1..Len(pts), n - 1)
      ord == SortBy(S, [k \in 1..Len(pts) |-> pts[k][1]])
      b == [k \in 1..Len(ord) |-> pts[ord[k]][1]]
      m == Len(b)
      spare == n - (m - 1)
      n1 == IF spare = 2 THEN 1 ELSE 1 + RFloor(RMul(RDiv(b[1], RAdd(b[1], RSub(1, b[m]))), spare - 1))
      n2 == spare - n1
  IN [j \in 1..n1 |-> RDiv(b[1], n1)] \o [j \in 1..(m - 1) |-> RSub(b[j + 1], b[j])]
     \o [j \in 1..n2 |-> RDiv(RSub(1, b[m]), n2)]
\* widths held between the limits lo and hi, then scaled to sum to one
Clamp(w, lo, hi) == LET v == Force([i \in 1..Len(w) |-> IF RLt(w[i], lo) THEN R(lo) ELSE IF RLt(hi, w[i]) THEN R(hi) ELSE w[i]])  sum == RSum(v)
                    IN [i \in 1..Len(v) |-> RDiv(v[i], sum)]
\* whatever was held between the limits: the scaled widths differ at most by the factor hi / lo
MinOf(w) == RSub(0, RMaxOf([i \in 1..Len(w) |-> RSub(0, w[i])]))
Limited(w, lo, hi) == RLe(RMul(RMaxOf(w), lo), RMul(RMul(MinOf(w), hi), "1000001/1000000"))
Ranks(pts, k) == Cardinality({j \in 1..Len(pts) : RLt(pts[k][2], RMul(pts[j][2], "1000001/1000000"))})
\* as many boundaries as wanted, and no doubt which ones
Determined(pts, n) == Len(pts) >= n - 1 /\ Cardinality({k \in 1..Len(pts) : Ranks(pts, k) <= n - 1}) = n - 1
SlopeStep(pts, n, lo, hi, new) ==
  LET w == Force(Slope(pts, n))
      free == \A i \in 1..n : RLe(RMul(lo, "1000001/1000000"), w[i]) /\ RLe(w[i], RMul(hi, "999999/1000000")) IN
  IF Determined(pts, n) /\ ~free
  THEN LET v == Clamp(w, lo, hi) IN (IF RNearSeq(new, v, "1/10000000") THEN {} ELSE {"widths held between the limits"})
  ELSE (IF Limited(new, lo, hi) THEN {} ELSE {"widths within the limits"})
       \cup (IF ~free \/ SlopeRel(pts, n, new, "1/10000000") THEN {} ELSE {"steepest control changes"})
=============================================================================
