------------------------------ MODULE ScaleTrace ------------------------------
(* Conformance for scaling: the same problem recorded with its scaling        *)
(* factors and with all factors one, asked at the same user-unit              *)
(* trajectories.  s: scaled recording, o: unscaled recording.                 *)
EXTENDS Ocp
Cases == JsonDeserialize("cases.json")
VARIABLES cs, stage, bad
vars == << cs, stage, bad >>
Ca == Cases[cs]
C == Ca.c
S == Ca.s
O == Ca.o
Raised == "raised" \in DOMAIN Ca
Tol == "1/10000000"
DTol == "1/1000000"
Clause(name, ok) == IF ok THEN {} ELSE {name}
Unk == Cat([p \in 1..C.np |-> PhaseUnknowns(C, p)])
Unknowns ==
  LET n == Len(Unk) IN
  IF Len(S.lbx) # n \/ Len(O.lbx) # n \/ Len(S.ubx) # n \/ Len(S.x0) # n \/ Len(O.x0) # n THEN {"C08.number of unknowns"}
  ELSE LET ok(a, b) == \A k \in 1..n : RNear(a[k], RMul(UScale(C, Unk[k]), b[k]), Tol) IN
       Clause("C08.lower bounds in user units", ok(S.lbx, O.lbx))
       \cup Clause("C08.upper bounds in user units", ok(S.ubx, O.ubx))
       \cup Clause("C08.guess in user units", ok(S.x0, O.x0))
\* objective: relative to the size of the running cost terms
Objective == Clause("C08.objective", Len(S.f) = Len(O.f) /\ \A q \in 1..Len(S.f) :
                RFin(S.f[q]) /\ RFin(O.f[q]) /\ RLe(RAbs(RSub(S.f[q], O.f[q])), RMul("1/20000", RAdd(1, RMax(RAbs(S.f[q]), Ca.mag[q])))))
\* the positive factor of row r: from the probe where the unscaled row is largest
NP == Len(O.g)
Largest(r) == CHOOSE q \in 1..NP : \A j \in 1..NP : RLe(RAbs(O.g[j][r]), RAbs(O.g[q][r]))
IsTol(r) == C.adaptive /\ C.midres /\ \E p \in 1..C.np : \A b \in {S, O} :
               RNear(b.lbg[r], RNeg(C.tolr[p]), Tol) /\ RNear(b.ubg[r], C.tolr[p], Tol)
RowOk(r) ==
  LET q == Largest(r)  m == Force(RDiv(S.g[q][r], O.g[q][r]))
      bnd(f) == RNear(S.lbg[r], RMul(f, O.lbg[r]), Tol) /\ RNear(S.ubg[r], RMul(f, O.ubg[r]), Tol) IN
  IF RLe(RAbs(O.g[q][r]), "1/100000000") THEN \A j \in 1..NP : RLe(RAbs(S.g[j][r]), "1/1000000")
  ELSE /\ RFin(m) /\ RLt(0, m)
       /\ \A j \in 1..NP : RLe(RAbs(RSub(S.g[j][r], RMul(m, O.g[j][r]))), RMul(RMul(DTol, m), RAdd(1, RAbs(O.g[q][r]))))
       /\ IsTol(r) \/ LET e(a, b) == RNear(a, b, Tol) IN
            (IF RFin(O.lbg[r]) THEN RFin(S.lbg[r]) /\ RLe(RAbs(RSub(S.lbg[r], RMul(m, O.lbg[r]))), RMul(RMul(DTol, m), RAdd(1, RAbs(O.lbg[r])))) ELSE ~RFin(S.lbg[r]))
         /\ (IF RFin(O.ubg[r]) THEN RFin(S.ubg[r]) /\ RLe(RAbs(RSub(S.ubg[r], RMul(m, O.ubg[r]))), RMul(RMul(DTol, m), RAdd(1, RAbs(O.ubg[r])))) ELSE ~RFin(S.ubg[r]))
Rows ==
  IF Len(S.lbg) # Len(O.lbg) \/ Len(S.ubg) # Len(O.ubg) \/ Len(S.lbg) # Len(S.ubg)
     \/ \E q \in 1..NP : Len(S.g[q]) # Len(O.lbg) \/ Len(O.g[q]) # Len(O.lbg) THEN {"C08.number of rows"}
  ELSE Clause("C08.rows agree up to a positive factor", \A r \in 1..Len(O.lbg) : RowOk(r))
Same(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : RNearSeq(a[n], b[n], DTol)
Data == UNION {Clause("C08.retrieved " \o f, Len(S.data) = Len(O.data) /\ \A k \in 1..Len(S.data) : Same(S.data[k][f], O.data[k][f]))
               : f \in {"states", "controls", "times", "parameters"}}
Clauses == Unknowns \cup Objective \cup Rows \cup Data
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
Init == cs \in 1..Len(Cases) /\ stage = "recorded" /\ bad = {}
Judge == /\ stage = "recorded" /\ stage' = "judged" /\ UNCHANGED cs
         /\ bad' = IF Raised THEN {"C08.raised: " \o Ca.raised} ELSE Clauses
         /\ Verdict(bad')
Spec == Init /\ [][Judge]_vars
=============================================================================
