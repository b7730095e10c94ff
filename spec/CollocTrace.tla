----------------------------- MODULE CollocTrace -----------------------------
(* Conformance of the collocation layer: operators recorded from the real     *)
(* Collocation objects (cases.json) against the exact ones.  One step per     *)
(* recorded case; every failed clause is reported, then the verdict.          *)
EXTENDS Colloc
Cases == JsonDeserialize("cases.json")
VARIABLES cs, bad, done
vars == << cs, bad, done >>
C == Cases[cs]

Tol == "1/1000000000"          \* 1e-9
NodeTol == "1/100000000000"    \* 1e-11
EndTol == "1/100000000000000"  \* 1e-14: rounding
Clause(name, ok) == IF ok THEN {} ELSE {name}
Has(key) == key \in DOMAIN C

\* |a-b| <= tol * (largest magnitude of the expected matrix, at least 1)
RowMag(row) == RMaxOf([i \in 1..Len(row) |-> RAbs(row[i])])
Mag(mat) == RMax(1, RMaxOf([i \in 1..Len(mat) |-> RowMag(mat[i])]))
AllFin(row) == \A i \in 1..Len(row) : RFin(row[i])
SameMatEps(got, want, eps) ==
  /\ Len(got) = Len(want)
  /\ \A i \in 1..Len(want) :
        /\ Len(got[i]) = Len(want[i])
        /\ AllFin(got[i])
        /\ \A j \in 1..Len(want[i]) : RLe(RAbs(RSub(got[i][j], want[i][j])), eps)
SameMat(got, want, tol) == SameMatEps(got, want, RMul(tol, Mag(want)))
\* weights: relative to the largest weight (the symbolic route integrates numerically)
SameW(got, want) == SameMatEps(<< got >>, << want >>, RAdd(RMul(C.qtol, RowMag(want)), "1/500000"))

\* --- C09: nodes
\* back to the reference interval
Ref(x) == RSub(RDiv(RMul(2, RSub(x, C.lo)), RSub(C.hi, C.lo)), 1)
NodesClauses ==
  LET n == C.nodes  d == C.d IN
  IF ~(Len(n) = d + 1 /\ AllFin(n)) THEN {"C09.count"}
  ELSE Clause("C09.increasing", \A i \in 1..d : RLt(n[i], n[i + 1]))
       \cup Clause("C09.first", RNear(n[1], C.lo, EndTol))
       \cup Clause("C09.last", RNear(n[d + 1], C.hi, EndTol))
       \cup Clause("C09.interval", REq(C.tau0, C.lo) /\ REq(C.tau1, C.hi))
       \cup Clause("C09.interior", \A i \in 2..d : ZeroNear(C.scheme, d, Ref(n[i]), NodeTol))

\* --- C10: operators of one segment, on the recorded nodes
SegmentClauses ==
  LET nodes == RSeq(C.nodes)
      b == Basis(nodes)
      At(pts, k) == [i \in 1..Len(pts) |-> DerRow(b, pts[i], k)]
  IN Clause("C10.first derivative at nodes", SameMat(C.D1, At(nodes, 1), C.tol))
     \cup Clause("C10.second derivative at nodes", SameMat(C.D2, At(nodes, 2), C.tol))
     \cup Clause("C10.first derivative at points", SameMat(C.P1, At(C.pts, 1), C.tol))
     \cup Clause("C10.second derivative at points", SameMat(C.P2, At(C.pts, 2), C.tol))
     \cup Clause("C10.interpolation at points", SameMat(C.I, At(C.pts, 0), C.tol))
     \cup Clause("C10.interpolation at nodes is the identity",
            SameMat(C.In, [i \in 1..Len(nodes) |-> [j \in 1..Len(nodes) |-> IF i = j THEN R(1) ELSE R(0)]], C.tol))
     \cup UNION {Clause("C10.quadrature", SameW(C.W[i].w, IntRow(b, C.W[i].a, C.W[i].b)))
                   : i \in 1..Len(C.W)}
     \cup Clause("C10.quadrature beyond the degree",
            C.scheme \in {"LGR", "LGL"} =>
            \A k \in 0..(IF C.scheme = "LGL" THEN 2 * C.d - 1 ELSE IF C.d = 1 THEN 1 ELSE 2 * C.d - 2) :
              LET w == C.W[1].w
                  m == [i \in 1..Len(nodes) |-> RPow(nodes[i], k)]
                  exact == PInt([i \in 1..(k + 1) |-> IF i = k + 1 THEN 1 ELSE 0], C.lo, C.hi)
              IN Len(w) = Len(nodes) /\ AllFin(w) /\
                 RLe(RAbs(RSub(RDot(w, m), exact)), RMul(C.qtol, RMax(1, RMul(Len(nodes), RMul(RowMag(m), RowMag(w)))))))

\* --- C11: composite operators
Degs == UNION {{Cases[i].orders[s] : s \in 1..Len(Cases[i].orders)} : i \in {i \in 1..Len(Cases) : Cases[i].kind = "composite"}}
BasisTab == Force([s \in Schemes |-> [d \in Degs |-> Basis(RefNodes(s, d))]])
CompositeClauses ==
  LET o == C.orders
      bs == [s \in 1..Len(o) |-> BasisTab[C.scheme][o[s]]]
      ns == [s \in 1..Len(o) |-> RefNodes(C.scheme, o[s])]
      j == RDiv(2, RSub(C.hi, C.lo))           \* d(reference)/d(tau)
      Sc(m, c) == [i \in 1..Len(m) |-> [k \in 1..Len(m[i]) |-> RMul(c, m[i][k])]]
      taus == [s \in 1..Len(o) |-> [i \in 1..Len(C.taus[s]) |-> Ref(C.taus[s][i])]]
  IN Clause("C11.differentiation", SameMat(C.D1, Sc(CompositeDiff(o, bs, ns, 1), j), C.tol))
     \cup Clause("C11.second differentiation", SameMat(C.D2, Sc(CompositeDiff(o, bs, ns, 2), RMul(j, j)), C.tol))
     \cup Clause("C11.interpolation", SameMat(C.I, CompositeAt(o, bs, taus, 0), C.tol))
     \cup Clause("C11.derivative at points", SameMat(C.P1, Sc(CompositeAt(o, bs, taus, 1), j), C.tol))
     \cup Clause("C11.second derivative at points", SameMat(C.P2, Sc(CompositeAt(o, bs, taus, 2), RMul(j, j)), C.tol))
     \cup Clause("C11.quadrature",
            SameW(C.W, CompositeQuad(o, [s \in 1..Len(o) |->
                   LET w == IntRow(bs[s], Ref(C.qa), Ref(C.qb)) IN
                   [k \in 1..(o[s] + 1) |-> RDiv(w[k], j)]])))

Clauses ==
  IF Has("raised") THEN {C.raises \o ".raised"}
  ELSE CASE C.kind = "nodes" -> NodesClauses
         [] C.kind = "segment" -> SegmentClauses
         [] C.kind = "composite" -> CompositeClauses

Init == cs \in 1..Len(Cases) /\ bad = {} /\ done = FALSE
Judge == /\ ~done
         /\ bad' = Clauses
         /\ done' = TRUE
         /\ \A b \in bad' : PrintT("@R|" \o ToString(cs) \o "|" \o b)
         /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF bad' = {} THEN "ACCEPT" ELSE "REJECT")
         /\ UNCHANGED cs
Spec == Init /\ [][Judge]_vars
=============================================================================
