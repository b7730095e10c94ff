------------------------------ MODULE TransTrace ------------------------------
(* Conformance of the transcription: the nonlinear programs recorded from the *)
(* real optimisers (cases.json: problem, mesh, probe vectors, and the bounds, *)
(* start values, constraint and cost values recorded) against the program the *)
(* machine of Transcribe builds for the same problem.                         *)
EXTENDS Defaults
Cases == JsonDeserialize("cases.json")
VARIABLES cs, ph, stage, unk, rows, obj, bad
\* some problems and optimisers are only partly described
ProbTab == Force([k \in 1..Len(Cases) |-> IF "partly" \in DOMAIN Cases[k] THEN Filled(Cases[k].c) ELSE Cases[k].c])
CaseProb(k) == ProbTab[k]
CaseProbes(k) == Cases[k].probes
OpsIn == UNION {{<< ProbTab[k].scheme, ProbTab[k].orders[s] >> : s \in 1..Len(ProbTab[k].orders)} : k \in 1..Len(Cases)}
OpTable == Force([s \in {o[1] : o \in OpsIn} |-> [d \in {o[2] : o \in {x \in OpsIn : x[1] = s}} |-> OpsOf(s, d)]])
T == INSTANCE Transcribe WITH Prob <- CaseProb, Probes <- CaseProbes, OpTab <- OpTable
vars == << cs, ph, stage, unk, rows, obj, bad >>

Rec == Cases[cs].rec
Opt == Cases[cs].opt
Raised == "raised" \in DOMAIN Cases[cs]
Tol == "1/1000000"        \* 1e-6, relative to max(1, magnitude)
BTol == "1/1000000000"    \* 1e-9
Clause(name, ok) == IF ok THEN {} ELSE {name}

\* --- unknowns, bounds, start values
SizeOk == Len(Rec.lbx) = Len(unk) /\ Len(Rec.ubx) = Len(unk) /\ Rec.nz = Len(unk)
UnknownClauses ==
  IF ~SizeOk THEN {"C01.number of unknowns"}
  ELSE UNION {Clause("C01.lower bound of " \o unk[k][1], RNear(Rec.lbx[k], T!ULower(T!C, unk[k]), BTol)) : k \in 1..Len(unk)}
       \cup UNION {Clause("C01.upper bound of " \o unk[k][1], RNear(Rec.ubx[k], T!UUpper(T!C, unk[k]), BTol)) : k \in 1..Len(unk)}
       \cup (IF T!C.adaptive
             THEN UNION {Clause("C21.width bounds", RNear(Rec.lbx[k], T!ULower(T!C, unk[k]), BTol) /\ RNear(Rec.ubx[k], T!UUpper(T!C, unk[k]), BTol))
                          : k \in {j \in 1..Len(unk) : unk[j][1] = "h"}} ELSE {})
GuessClauses ==
  IF ~Opt.guess THEN {}
  ELSE IF Len(Rec.x0) # Len(unk) THEN {"C12.number of start values"}
  ELSE Clause("C12.finite", \A k \in 1..Len(unk) : RFin(Rec.x0[k]))
       \cup UNION {Clause("C12.guess of " \o unk[k][1], RNear(Rec.x0[k], T!UGuess(T!C, unk[k]), BTol)) : k \in 1..Len(unk)}

\* --- rows
G(q) == Rec.g[q]
NG == Len(Rec.lbg)
NPr == Len(Cases[cs].probes)
RowsReadable == Len(Rec.ubg) = NG /\ \A q \in 1..NPr : Len(G(q)) = NG
SameValue(r, k) == \A q \in 1..NPr : RNear(G(q)[k], r.v[q], Tol)
SameBounds(r, k) == RNear(Rec.lbg[k], r.lo, BTol) /\ RNear(Rec.ubg[k], r.hi, BTol)
\* the negative of a row between its negated bounds says the same
Flipped(r, k) == /\ RNear(Rec.lbg[k], RSub(0, r.hi), BTol) /\ RNear(Rec.ubg[k], RSub(0, r.lo), BTol)
                 /\ \A q \in 1..NPr : RNear(G(q)[k], RSub(0, r.v[q]), Tol)
Same(r, k) == (SameBounds(r, k) /\ SameValue(r, k)) \/ Flipped(r, k)
Straight == NG = Len(rows) /\ \A k \in 1..NG : Same(rows[k], k)
\* otherwise rows may stand in another order: match each expected row to the first
\* free recorded row with its values and bounds
RECURSIVE Match(_, _, _)
Match(k, free, lost) ==
  IF k > Len(rows) THEN << free, lost >>
  ELSE LET hit == IF k \in free /\ Same(rows[k], k) THEN {k} ELSE {j \in free : Same(rows[k], j)} IN
       IF hit = {} THEN Match(k + 1, free, lost \cup {k})
       ELSE Match(k + 1, free \ {CHOOSE j \in hit : \A i \in hit : j <= i}, lost)
BoundClass(lo, hi) == IF REq(lo, 0) /\ REq(hi, 0) THEN "eq" ELSE IF REq(lo, "-inf") /\ REq(hi, 0) THEN "neg" ELSE "box"
ClassOwners(b) == CASE b = "eq" -> {"C02", "C04", "C06", "C07", "C21"} [] b = "neg" -> {"C03"} [] b = "box" -> {"C06", "C07", "C21"}
RowClauses ==
  IF ~SizeOk THEN {}
  ELSE IF ~RowsReadable THEN {p \o ".rows and their bounds differ in number" : p \in {"C02", "C03", "C04", "C06", "C07", "C21"}}
  ELSE IF Straight THEN {}
  ELSE LET m == Force(Match(1, 1..NG, {}))
           free == m[1]  lost == m[2]
           cls(j) == BoundClass(Rec.lbg[j], Rec.ubg[j])
           surplus(b) == Cardinality({j \in free : cls(j) = b}) > Cardinality({k \in lost : BoundClass(rows[k].lo, rows[k].hi) = b})
       IN UNION {{p \o ".missing or wrong row: " \o rows[k].k : p \in T!Owner(rows[k].k)} : k \in lost}
          \cup (IF Opt.expose /\ lost # {} THEN {"C01.unknown not where it belongs: " \o rows[k].k : k \in lost} ELSE {})
          \* the first probe of such a problem does not depend on time, the second only does
          \cup (IF Opt.times /\ \E k \in lost : rows[k].k \in {"dyn", "path", "midres"} /\ \E j \in free :
                     SameBounds(rows[k], j) /\ RNear(G(1)[j], rows[k].v[1], Tol) /\ ~RNear(G(2)[j], rows[k].v[2], Tol)
                THEN {"C26.time passed to the user's functions"} ELSE {})
          \cup UNION {IF surplus(b) THEN {p \o ".surplus row (" \o b \o ")" : p \in ClassOwners(b)} ELSE {} : b \in {"eq", "neg", "box"}}
\* --- objective
FTol == "1/20000"
ObjClauses ==
  IF ~SizeOk THEN {}
  ELSE IF \A q \in 1..NPr : RFin(Rec.f[q]) /\ RLe(RAbs(RSub(Rec.f[q], obj[q].v)), RMul(IF Opt.lagrange THEN FTol ELSE Tol, obj[q].mag))
       THEN {} ELSE {p \o ".objective" : p \in {Opt.objowner[k] : k \in 1..Len(Opt.objowner)}}

ObjTimes ==
  IF ~SizeOk \/ ~Opt.times THEN {}
  ELSE LET ok(q) == RFin(Rec.f[q]) /\ RLe(RAbs(RSub(Rec.f[q], obj[q].v)), RMul(FTol, obj[q].mag)) IN
       IF ok(1) /\ ~ok(2) THEN {"C26.time passed to the running cost"} ELSE {}
Found == ObjTimes \cup UnknownClauses \cup GuessClauses \cup RowClauses \cup ObjClauses
\* a solver created by hand is the one that is used
L == INSTANCE Life
BuiltClauses == IF "built" \notin DOMAIN Rec THEN {} ELSE
  LET b == Rec.built  o == Cases[cs].own IN
  Clause("plug-in of the solver created", b.plugin = o.plugin)
  \cup Clause("options of the solver created", L!SameMap(b.opts, L!OptionsOf(o.plugin, o.opts)))
  \cup Clause("the solve uses the solver created", b.again = 0 /\ b.called = 1)
Clauses == IF "partly" \in DOMAIN Cases[cs] THEN {"C29." \o x : x \in Found}
           ELSE IF "claim" \in DOMAIN Cases[cs] THEN {Cases[cs].claim \o "." \o x : x \in Found \cup BuiltClauses} ELSE Found
Verdict(b) == /\ \A x \in b : PrintT("@R|" \o ToString(cs) \o "|" \o x)
              /\ PrintT("@E|" \o ToString(cs) \o "|" \o IF b = {} THEN "ACCEPT" ELSE "REJECT")
Init == T!TInit(Len(Cases)) /\ bad = {}
Crash == /\ Raised /\ stage = "unknowns" /\ ph = 1 /\ stage' = "judged"
         /\ bad' = {Cases[cs].raises \o ".raised: " \o Cases[cs].raised}
         /\ UNCHANGED << cs, ph, unk, rows, obj >>
         /\ Verdict(bad')
Judge == /\ stage = "done" /\ stage' = "judged"
         /\ bad' = Clauses
         /\ UNCHANGED << cs, ph, unk, rows, obj >>
         /\ Verdict(bad')
Next == (~Raised /\ T!TNext /\ UNCHANGED bad) \/ Crash \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
