---------------------------- MODULE RetrieveTrace ----------------------------
(* Conformance of retrieval: sessions recorded from the real optimisers.  A   *)
(* session is a problem, a solution vector, widths and a sequence of          *)
(* questions with the answers given; the machine of this module walks through *)
(* the questions and compares each answer with Retrieve.                      *)
EXTENDS Retrieve
Cases == JsonDeserialize("cases.json")
VARIABLES cs, k, bad
vars == << cs, k, bad >>
OpsIn == UNION {{<< Cases[n].c.scheme, Cases[n].c.orders[s] >> : s \in 1..Len(Cases[n].c.orders)} : n \in 1..Len(Cases)}
Op == Force([s \in {o[1] : o \in OpsIn} |-> [dg \in {o[2] : o \in {x \in OpsIn : x[1] = s}} |-> OpsOf(s, dg)]])
C == Cases[cs].c
Raised == "raised" \in DOMAIN Cases[cs]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Tol == "1/1000000"
D(p) == PhaseData(C, Cases[cs].z, Cases[cs].w, p)
\* two matrices (sequences of rows) agree
SameRows(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : RNearSeq(a[n], b[n], Tol)
Phases(q) == q.phases
CatP(q, F(_)) == Cat([n \in 1..Len(Phases(q)) |-> F(Phases(q)[n])])

\* --- node data
Orig(q) ==
  LET r == q.res
      sc == q.scaled
  IN Clause("C14.states at the nodes", SameRows(r.x, CatP(q, LAMBDA p : OrigX(C, D(p), sc))))
     \cup Clause("C14.controls at the nodes", SameRows(r.u, CatP(q, LAMBDA p : OrigU(C, D(p), sc))))
     \cup Clause("C14.parameters", RNearSeq(r.a, CatP(q, LAMBDA p : ParamA(C, D(p), sc)), Tol))
     \cup (IF RNearSeq(r.t, CatP(q, LAMBDA p : OrigT(C, Op, D(p))), Tol) THEN {} ELSE {"C14.node times", "C26.node times"})
\* --- interpolated data; default points: uniform, the start of later segments left out
DefaultTaus(nrow) ==
  LET S == NSeg(C)  m == (nrow - 1) \div S IN
  [s \in 1..S |-> [j \in 1..(IF s = 1 THEN m + 1 ELSE m) |->
      RAdd(C.lo, RMul(RSub(C.hi, C.lo), RDiv(IF s = 1 THEN j - 1 ELSE j, m)))]]
InterpOk(q, taus) ==
  LET r == q.res
      sc == q.scaled
      po == PointOps(C, Op, taus, 0)
      X(p) == LET d == D(p) IN Force([m \in 1..Len(po) |-> LET v == AtX(C, d, po[m]) IN [i \in 1..C.nx |-> Unscale(v[i], C.scx[i], sc)]])
      U(p) == LET d == D(p) IN Force([m \in 1..Len(po) |-> LET v == AtU(C, d, po[m]) IN [i \in 1..C.nu |-> Unscale(v[i], C.scu[i], sc)]])
      T(p) == LET d == D(p) IN Force([m \in 1..Len(po) |-> AtT(C, d, po[m])])
  IN Clause("C15.interpolated states", SameRows(r.x, CatP(q, X)))
     \cup Clause("C15.interpolated controls", SameRows(r.u, CatP(q, U)))
     \cup (IF RNearSeq(r.t, CatP(q, T), Tol) THEN {} ELSE {"C15.interpolated times", "C26.interpolated times"})
     \cup Clause("C15.parameters", RNearSeq(r.a, CatP(q, LAMBDA p : ParamA(C, D(p), sc)), Tol))
Interp(q) ==
  IF ~q.default THEN InterpOk(q, q.taus)
  ELSE LET n == Len(q.res.x) \div Len(Phases(q)) IN
       IF Len(q.res.x) # n * Len(Phases(q)) \/ n < NSeg(C) + 1 \/ (n - 1) % NSeg(C) # 0 THEN {"C15.number of points"}
       ELSE InterpOk(q, DefaultTaus(n))
\* --- grids
Positions(wid, lo, hi, taus) == LET f == Force(Flat2(taus)) IN Force([m \in 1..Len(f) |-> PhasePos(lo, hi, wid, f[m][1], f[m][2])])
Slack == "1/1000000000"
Inside(lo, hi, wid, taus) == \A s \in 1..Len(taus) : \A j \in 1..Len(taus[s]) :
   LET e == RMul(RSub(hi, lo), RDiv(Slack, wid[s])) IN RLe(RSub(lo, e), taus[s][j]) /\ RLe(taus[s][j], RAdd(hi, e))
AllNear(a, b) == Len(a) = Len(b) /\ \A m \in 1..Len(a) : RLe(RAbs(RSub(a[m], b[m])), Slack)
\* ys: positions 0..1, increasing
Dist(q) ==
  LET in == SelectSeq(q.ys, LAMBDA y : RLt(0, y)) IN
  Clause("C16.one list per segment", Len(q.res) = Len(q.wid))
  \cup (IF Len(q.res) # Len(q.wid) THEN {}
        ELSE Clause("C16.position in the wrong segment", Inside(q.lo, q.hi, q.wid, q.res))
             \cup Clause("C16.positions lost, moved or repeated", AllNear(Positions(q.wid, q.lo, q.hi, q.res), in)))
Grid16(q) ==
  LET wid == D(q.phase).wid  r == q.res IN
  IF Len(r) # NSeg(C) THEN {"C16.one list per segment"}
  ELSE CASE q.type = "fixed" ->
              LET pos == Positions(wid, C.lo, C.hi, r)  m == Len(pos) + 1 IN
              Clause("C16.position in the wrong segment", Inside(C.lo, C.hi, wid, r))
              \cup Clause("C16.uniform grid", m > 1 /\ AllNear(pos, [j \in 1..(m - 1) |-> RDiv(j, m)]))
              \cup Clause("C16.uniform grid coarser than the mesh, or than asked for", m > NN(C) - 1 /\ m > Cases[cs].least)
       [] q.type = "mid-points" ->
              Clause("C16.mid-point grid", \A s \in 1..NSeg(C) :
                 LET ns == Op[C.scheme][C.orders[s]].mids IN
                 Len(r[s]) = Len(ns) /\ \A j \in 1..Len(ns) : RNear(Ref(C, r[s][j]), ns[j], Slack))
       [] q.type = "spectral" ->
              Clause("C16.spectral grid", \A s \in 1..NSeg(C) :
                 LET dg == Len(r[s]) + 1 IN
                 /\ dg > C.orders[s] /\ dg > Cases[cs].least /\ dg <= 24
                 /\ LET ns == RefNodes(C.scheme, dg) IN
                    \A j \in 1..(dg - 1) : RNear(Ref(C, r[s][j]), ns[j + 1], Slack))
\* --- defects.  per[p]: taus per segment; res.t[p][s], res.r[p][s][point][state]
SegPts(po, s) == SelectSeq(po, LAMBDA x : x.s = s)
MaxAbs(rows, i) == IF Len(rows) = 0 THEN R(0) ELSE RMaxOf([m \in 1..Len(rows) |-> RAbs(rows[m][i])])
Divisor(v, rel) == IF ~rel \/ REq(v, 0) THEN R(1) ELSE v
TimesOk(d, po, rt) == \A s \in 1..NSeg(C) : LET pts == SegPts(po, s) IN
   RNearSeq(rt[s], [m \in 1..Len(pts) |-> AtT(C, d, pts[m])], Tol)
DynRes(q) ==
  UNION {LET p == Phases(q)[n]
             d == D(p)
             taus == q.per[n]
             po == PointOps(C, Op, taus, 0)
             pd == PointOps(C, Op, taus, 1)
             f == Force([m \in 1..Len(po) |-> Dyn(C, p, d, po[m])])
             div == Force([i \in 1..C.nx |-> Divisor(MaxAbs(f, i), q.relative)])
             e == Force([m \in 1..Len(po) |-> [i \in 1..C.nx |-> RRnd(RDiv(RSub(At(C, pd[m], d.X[i]), f[m][i]), div[i]))]])
             mag == Force([i \in 1..C.nx |-> RDiv(RAdd(1, MaxAbs(f, i)), div[i])])
             got == q.res.r[n]
             rt == q.res.t[n]
             flat == Force(Cat(got))
         IN IF Len(got) # NSeg(C) \/ Len(rt) # NSeg(C) \/ Len(flat) # Len(po)
               \/ \E s \in 1..NSeg(C) : Len(got[s]) # Len(SegPts(po, s))
            THEN {"C17.one defect per point, segment by segment"}
            ELSE Clause("C17.defect", \A m \in 1..Len(po) : Len(flat[m]) = C.nx /\ \A i \in 1..C.nx :
                     RFin(flat[m][i]) /\ RLe(RAbs(RSub(flat[m][i], e[m][i])), RMul(Tol, RMax(mag[i], RAbs(e[m][i])))))
                 \cup (IF TimesOk(d, po, rt) THEN {} ELSE {"C17.times of the defects", "C26.times of the defects"})
         : n \in 1..Len(Phases(q))}
\* --- integrated states
STol == "1/5000"
StateRes(q) ==
  UNION {LET p == Phases(q)[n]
             d == D(p)
             taus == q.per[n]
             po == PointOps(C, Op, taus, 0)
             int == Force([s \in 1..NSeg(C) |-> IF Len(taus[s]) = 0 THEN << >> ELSE Integrated(C, p, Op, d, s, taus[s])])
             all == Force(Cat(int))
             div == Force([i \in 1..C.nx |-> Divisor(MaxAbs([m \in 1..Len(all) |-> [j \in 1..C.nx |-> all[m][j][1]]], i), q.relative)])
             got == q.res.r[n]
             gx == q.res.x[n]
             rt == q.res.t[n]
             flat == Force(Cat(got))
             flatx == Force(Cat(gx))
             \* the largest magnitude is only known up to the error of the integrals
             tol(m, i) == RDiv(RAdd(RMul(STol, RAdd(all[m][i][2], RAbs(all[m][i][1]))), "1/200000"), div[i])
             dtol == Force([i \in 1..C.nx |-> IF q.relative /\ Len(all) > 0 THEN RMaxOf([m \in 1..Len(all) |-> tol(m, i)]) ELSE R(0)])
         IN IF Len(got) # NSeg(C) \/ Len(rt) # NSeg(C) \/ Len(flat) # Len(po) \/ Len(flatx) # Len(po)
               \/ \E s \in 1..NSeg(C) : Len(got[s]) # Len(SegPts(po, s))
            THEN {"C18.one residual per point, segment by segment"}
            ELSE Clause("C18.integrated state", \A m \in 1..Len(po) : Len(flatx[m]) = C.nx /\ \A i \in 1..C.nx :
                     RFin(flatx[m][i]) /\ RLe(RAbs(RSub(flatx[m][i], all[m][i][1])), RMul(tol(m, i), div[i])))
                 \cup Clause("C18.residual", \A m \in 1..Len(po) : Len(flat[m]) = C.nx /\ \A i \in 1..C.nx :
                     LET e == RDiv(RSub(At(C, po[m], d.X[i]), all[m][i][1]), div[i]) IN
                     RFin(flat[m][i]) /\ RLe(RAbs(RSub(flat[m][i], e)), RAdd(tol(m, i), RMul(dtol[i], RAbs(e)))))
                 \cup (IF TimesOk(d, po, rt) THEN {} ELSE {"C18.times of the residuals", "C26.times of the residuals"})
         : n \in 1..Len(Phases(q))}
\* --- curvature: second derivatives of states and controls w.r.t. normalised time
Curv(q) ==
  UNION {LET p == Phases(q)[n]
             d == D(p)
             po == PointOps(C, Op, q.per[n], 2)
             fx == Force(Cat(q.res.x[n]))
             fu == Force(Cat(q.res.u[n]))
             mag(v) == RAdd(1, RMul(50, RMaxOf([m \in 1..NN(C) |-> RAbs(v[m])])))
             mx == Force([i \in 1..C.nx |-> mag(d.X[i])])
             mu == Force([i \in 1..C.nu |-> mag(d.U[i])])
             ex == Force([m \in 1..Len(po) |-> [i \in 1..C.nx |-> At(C, po[m], d.X[i])]])
             eu == Force([m \in 1..Len(po) |-> [i \in 1..C.nu |-> At(C, po[m], d.U[i])]])
             \* relative: to the largest magnitude of the point's segment (too small a one is noise: only finite)
             big(e, s) == RMaxOf([m \in 1..Len(po) |-> IF po[m].s # s \/ Len(e[m]) = 0 THEN R(0) ELSE RMaxOf([i \in 1..Len(e[m]) |-> RAbs(e[m][i])])])
             div(e) == Force([s \in 1..NSeg(C) |-> IF ~q.relative THEN R(1) ELSE big(e, s)])
             noise(mg) == RMul("1/1000", RMaxOf(mg))
             Same(got, e, mg, wd) == LET dv == div(e) IN
               \A m \in 1..Len(po) : Len(got[m]) = wd /\ \A i \in 1..wd :
                  /\ RFin(got[m][i])
                  /\ \/ q.relative /\ RLe(dv[po[m].s], noise(mg))
                     \/ LET w == RMul(got[m][i], dv[po[m].s]) IN
                        RLe(RAbs(RSub(w, e[m][i])), RMul(Tol, RMax(mg[i], RAbs(w))))
         IN IF Len(fx) # Len(po) \/ Len(fu) # Len(po) \/ Len(q.res.t[n]) # NSeg(C) THEN {"C28.one value per point, segment by segment"}
            ELSE Clause("C28.second derivative of states", C.nx = 0 \/ Same(fx, ex, mx, C.nx))
                 \cup Clause("C28.second derivative of controls", C.nu = 0 \/ Same(fu, eu, mu, C.nu))
                 \cup (IF TimesOk(d, po, q.res.t[n]) THEN {} ELSE {"C28.times", "C26.times of the second derivatives"})
         : n \in 1..Len(Phases(q))}
OwnerOf(op) == CASE op = "orig" -> "C14" [] op = "interp" -> "C15" [] op \in {"grid", "dist"} -> "C16" [] op = "dynres" -> "C17"
                [] op = "xres" -> "C18" [] op = "curv" -> "C28"
Judge(q) == IF "raised" \in DOMAIN q THEN {OwnerOf(q.op) \o ".raised: " \o q.raised}
            ELSE CASE q.op = "orig" -> Orig(q) [] q.op = "interp" -> Interp(q) [] q.op = "grid" -> Grid16(q)
                   [] q.op = "dist" -> Dist(q) [] q.op = "dynres" -> DynRes(q) [] q.op = "xres" -> StateRes(q)
                   [] q.op = "curv" -> Curv(q)
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
Init == cs \in 1..Len(Cases) /\ k = 1 /\ bad = {}
Ask == /\ ~Raised /\ k \in 1..Len(Cases[cs].calls)
       /\ bad' = bad \cup Judge(Cases[cs].calls[k])
       /\ k' = k + 1 /\ UNCHANGED cs
Finish == /\ (Raised /\ k = 1) \/ (~Raised /\ k = Len(Cases[cs].calls) + 1)
          /\ k' = 0 /\ UNCHANGED cs
          /\ bad' = IF Raised THEN {Cases[cs].raises \o ".raised: " \o Cases[cs].raised} ELSE bad
          /\ Verdict(bad')
Next == Ask \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
