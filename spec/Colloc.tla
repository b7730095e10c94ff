------------------------------- MODULE Colloc -------------------------------
(* Operators of one segment, and composite operators of a mesh whose          *)
(* segments share their end nodes.  Everything on the reference interval      *)
(* [-1,1] unless a basis for other nodes is passed.                           *)
EXTENDS Nodes, FiniteSets

\* --- mesh structure: orders = sequence of polynomial degrees, one per segment
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
NodeCount(orders) == SumTo(orders, Len(orders)) + 1
\* first node of segment s
FirstNode(orders, s) == SumTo(orders, s - 1) + 1
LastNode(orders, s) == SumTo(orders, s) + 1
\* the segment that ends at node n or has it inside (node 1 belongs to segment 1)
OwnerSeg(orders, n) ==
  IF n = 1 THEN 1 ELSE CHOOSE s \in 1..Len(orders) : FirstNode(orders, s) < n /\ n <= LastNode(orders, s)
\* 1-based position of node n in its owner segment
OwnerPos(orders, n) == n - FirstNode(orders, OwnerSeg(orders, n)) + 1
\* node of all nodes, as << owner segment, position >>
NodeMap(orders) == Force([n \in 1..NodeCount(orders) |-> << OwnerSeg(orders, n), OwnerPos(orders, n) >>])

\* --- composite matrices.  rows: for each segment a sequence of rows over the
\*     segment's own nodes; placed at the segment's columns, zero elsewhere.
PlaceRow(orders, s, row) ==
  LET a == FirstNode(orders, s)  b == LastNode(orders, s) IN
  [n \in 1..NodeCount(orders) |-> IF a <= n /\ n <= b THEN row[n - a + 1] ELSE R(0)]
RECURSIVE Composite(_, _, _)
Composite(orders, segrows, s) ==
  IF s = 0 THEN << >>
  ELSE Composite(orders, segrows, s - 1) \o [i \in 1..Len(segrows[s]) |-> PlaceRow(orders, s, segrows[s][i])]
\* differentiation: every node with the polynomial of its owner segment
SegDiffRows(basis, nodes, s, k) ==
  [i \in 1..(IF s = 1 THEN Len(nodes) ELSE Len(nodes) - 1) |->
      DerRow(basis, nodes[IF s = 1 THEN i ELSE i + 1], k)]
CompositeDiff(orders, bases, nodes, k) ==
  Force(Composite(orders, [s \in 1..Len(orders) |-> SegDiffRows(bases[s], nodes[s], s, k)], Len(orders)))
\* values / derivatives at requested points of every segment
CompositeAt(orders, bases, taus, k) ==
  Force(Composite(orders, [s \in 1..Len(orders) |->
     [i \in 1..Len(taus[s]) |-> DerRow(bases[s], taus[s][i], k)]], Len(orders)))
\* quadrature: weights of both segments add at a shared node
CompositeQuad(orders, segw) ==
  Force([n \in 1..NodeCount(orders) |->
     RSum([s \in 1..Len(orders) |->
        LET a == FirstNode(orders, s) IN
        IF a <= n /\ n <= LastNode(orders, s) THEN segw[s][n - a + 1] ELSE R(0)])])
=============================================================================
