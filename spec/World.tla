-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* A mooring system driven through the API: what a caller knows after each *)
(* call, and what every observation must then satisfy.                     *)
(*                                                                         *)
(* The model m (constant along a behaviour) is the content of the input    *)
(* file: environment, lines, points, rods, bodies.  The driver state w     *)
(*   ph   "made" | "run" | "closed"                                        *)
(*   t    simulated time                                                   *)
(*   x, xd, dt   coupled kinematics of the last Init/Step                  *)
(*   a    acceleration implied by the last two commanded velocities        *)
(*   ul, ulv, ea, pb, pin   run time line settings                         *)
(*   ext, U, A   externally imposed water kinematics                       *)
(***************************************************************************)
EXTENDS RigidLaw, Water, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Zeros(n) == [i \in 1..n |-> "0.0"]
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumI(Tail(s))
Idx(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : P(s[i]))

(* ---------------------------- coupling layout -------------------------- *)
Width(k) == IF k = "coupled" THEN 6 ELSE 3
IsCpl(o) == o.k \in {"coupled", "cpldpin"}
Members(m) ==
  [j \in 1..Len(Idx(m.bodies, IsCpl)) |->
      LET i == Idx(m.bodies, IsCpl)[j] IN [c |-> "body", i |-> i, n |-> Width(m.bodies[i].k)]]
  \o [j \in 1..Len(Idx(m.rods, IsCpl)) |->
      LET i == Idx(m.rods, IsCpl)[j] IN [c |-> "rod", i |-> i, n |-> Width(m.rods[i].k)]]
  \o [j \in 1..Len(Idx(m.points, IsCpl)) |->
      [c |-> "point", i |-> Idx(m.points, IsCpl)[j], n |-> 3]]
Slots(m) == LET s == Members(m) IN
  [j \in 1..Len(s) |-> [c |-> s[j].c, i |-> s[j].i, n |-> s[j].n,
                        off |-> SumI([q \in 1..(j-1) |-> s[q].n])]]
NDof(m) == SumI([j \in 1..Len(Members(m)) |-> Members(m)[j].n])
SlotOf(m, c, i) == LET s == Slots(m) IN s[CHOOSE j \in 1..Len(s) : s[j].c = c /\ s[j].i = i]
Part(v, s) == SubSeq(v, s.off + 1, s.off + s.n)

(* order of the nodes for externally imposed kinematics *)
ExtN(m) == SumI([i \in 1..Len(m.lines) |-> m.lines[i].n + 1])
           + SumI([i \in 1..Len(m.rods) |-> m.rods[i].n + 1])
           + Len(m.points) + Len(m.bodies) + 1
ExtOff(m, c, i) ==
  LET nl == SumI([j \in 1..Len(m.lines) |-> m.lines[j].n + 1])
      nr == SumI([j \in 1..Len(m.rods) |-> m.rods[j].n + 1]) IN
  IF c = "line" THEN SumI([j \in 1..(i-1) |-> m.lines[j].n + 1])
  ELSE IF c = "rod" THEN nl + SumI([j \in 1..(i-1) |-> m.rods[j].n + 1])
  ELSE IF c = "point" THEN nl + nr + i - 1
  ELSE nl + nr + Len(m.points) + i      \* the ground comes first

(* sea bed height: flat, or bilinear in a rectangular table held constant  *)
(* outside of it                                                           *)
BedAt(m, x, y) ==
  IF m.bathy = <<>> THEN FNeg(m.env.wd)
  ELSE LET b == m.bathy
           i == Bracket(b.x, x)
           j == Bracket(b.y, y)
           mn(p, q) == IF p < q THEN p ELSE q
           z(p, q) == b.z[mn(q, Len(b.y))][mn(p, Len(b.x))]     \* rows run along y
       IN Lerp(Lerp(z(i[1], j[1]), z(i[1]+1, j[1]), i[2]),
               Lerp(z(i[1], j[1]+1), z(i[1]+1, j[1]+1), i[2]), j[2])

\* mean depth
RECURSIVE SumAll(_)
SumAll(z) == IF z = <<>> THEN "0.0" ELSE FAdd(VSum(z[1]), SumAll(Tail(z)))
MeanDepth(m) == IF m.bathy = <<>> THEN m.env.wd
  ELSE FNeg(FDiv(SumAll(m.bathy.z), FI(Len(m.bathy.x) * Len(m.bathy.y))))

(* ------------------------------ driver state --------------------------- *)
Fresh(m) ==
  [ph |-> "made", t |-> "0.0", x |-> <<>>, xd |-> <<>>, dt |-> "0.0", a |-> <<>>,
   ul |-> [i \in 1..Len(m.lines) |-> m.lines[i].ul],
   ul0 |-> [i \in 1..Len(m.lines) |-> m.lines[i].ul],
   ulv |-> [i \in 1..Len(m.lines) |-> "0.0"],
   ea |-> [i \in 1..Len(m.lines) |-> m.lines[i].t.EA],
   eac |-> [i \in 1..Len(m.lines) |-> m.lines[i].t.EAc],
   pb |-> [i \in 1..Len(m.lines) |-> FALSE],
   pin |-> [i \in 1..Len(m.lines) |-> [j \in 1..(m.lines[i].n + 1) |-> "0.0"]],
   ext |-> FALSE, U |-> <<>>, A |-> <<>>, calls |-> <<>>,
   sea |-> IF "sea" \in DOMAIN m THEN TLCEval(Setup(m.sea, m.env.g, MeanDepth(m))) ELSE <<>>]
SeaHere(m, w, pos) == SeaAt(m.sea, w.sea, pos, w.t, MeanDepth(m), BedAt(m, pos[1], pos[2]), FMul(m.env.rho, m.env.g))

(* a negative length in the file is a multiple of the initial end distance *)
UlInit(m, w, o) == [i \in 1..Len(m.lines) |->
   IF FLt(m.lines[i].ul, "0.0")
   THEN FMul(FNeg(m.lines[i].ul), VNorm(VSub(o.line[i].r[m.lines[i].n + 1], o.line[i].r[1])))
   ELSE m.lines[i].ul]

DoInit(m, w, ev) == [w EXCEPT !.ph = "run", !.t = "0.0", !.x = ev.x, !.xd = ev.xd,
                              !.a = Zeros(NDof(m)), !.dt = "0.0",
                              !.ul = IF "o" \in DOMAIN ev THEN TLCEval(UlInit(m, w, ev.o)) ELSE @,
                              !.ul0 = IF "o" \in DOMAIN ev THEN TLCEval(UlInit(m, w, ev.o)) ELSE @]
DoStep(m, w, ev) ==
  IF ~FLt("0.0", ev.dt) THEN w
  ELSE [w EXCEPT !.t = FAdd(w.t, F(ev.dt)), !.x = ev.x, !.xd = ev.xd, !.dt = F(ev.dt),
                 !.a = VScale(FDiv("1.0", ev.dt), VSub(ev.xd, w.xd)),
                 !.ul = TLCEval([i \in DOMAIN w.ul |->
                           IF FEq(w.ulv[i], "0.0") THEN w.ul[i]
                           ELSE FAdd(w.ul[i], FMul(F(ev.dt), w.ulv[i]))])]

(* ------------------------------ geometry ------------------------------- *)
BodyR(o) == IF "R" \in DOMAIN o THEN o.R ELSE RotXYZ(Tail3(o.r))
RodQ(o) == VUnit(VSub(o.r[o.n + 1], o.r[1]))

(* what the user imposed, if anything *)
Given(m, w, v, c, i, j) == IF v = <<>> THEN Z3 ELSE v[ExtOff(m, c, i) + j]
(* water at the nodes of an object: sequences u, ud, zeta, pdyn *)
Water(m, w, o, c, i, nn) ==
IF m.wk = "obs" THEN
    LET k == IF c = "line" THEN o.wk.line[i] ELSE IF c = "rod" THEN o.wk.rod[i]
             ELSE IF c = "point" THEN o.wk.point[i] ELSE o.wk.body[i] IN
    [u |-> [j \in 1..nn |-> VAdd(k[j].U, Given(m, w, w.U, c, i, j))],
     ud |-> [j \in 1..nn |-> VAdd(k[j].Ud, Given(m, w, w.A, c, i, j))],
     zeta |-> [j \in 1..nn |-> k[j].zeta], pdyn |-> [j \in 1..nn |-> k[j].pdyn]]
  ELSE [u |-> [j \in 1..nn |-> Z3], ud |-> [j \in 1..nn |-> Z3],
        zeta |-> Zeros(nn), pdyn |-> Zeros(nn)]

EndTangent(o, end, lineEnd) ==   \* <<>> when the end is pinned
  IF end.k = "p" THEN <<>>
  ELSE LET q == RodQ(o.rod[end.i]) IN
       IF (lineEnd = 0 /\ end.e = 0) \/ (lineEnd = 1 /\ end.e = 1) THEN VScale("-1.0", q) ELSE q

LineLaw_(m, w, o, i) ==
  LET L == m.lines[i]
      k == o.line[i]
      wa == Water(m, w, o, "line", i, L.n + 1)
  IN LineLoads([t |-> [L.t EXCEPT !.EAc = w.eac[i]], n |-> L.n, ul |-> w.ul[i], ul0 |-> w.ul0[i],
                ea |-> w.ea[i], t0 |-> L.t],
       [r |-> k.r, rd |-> k.rd, u |-> wa.u, ud |-> wa.ud, zeta |-> wa.zeta, pdyn |-> wa.pdyn,
        zb |-> TLCEval([j \in 1..(L.n + 1) |-> BedAt(m, k.r[j][1], k.r[j][2])]),
        qa |-> EndTangent(o, L.A, 0), qb |-> EndTangent(o, L.B, 1), pb |-> w.pb[i], pin |-> w.pin[i]],
       m.env)

(* line ends attached to a point or to an end of a rod *)
EndsAt(m, o, k, i, e) ==
  LET n == Len(m.lines)
      pick(l) == (IF m.lines[l].A.k = k /\ m.lines[l].A.i = i /\ m.lines[l].A.e = e
                  THEN <<[f |-> o.line[l].f[1], m |-> o.line[l].m[1]]>> ELSE <<>>)
              \o (IF m.lines[l].B.k = k /\ m.lines[l].B.i = i /\ m.lines[l].B.e = e
                  THEN <<[f |-> o.line[l].f[m.lines[l].n + 1], m |-> o.line[l].m[m.lines[l].n + 1]]>> ELSE <<>>)
  IN TLCEval(Flat([l \in 1..n |-> pick(l)]))

PointLaw(m, w, o, i) ==
  LET wa == Water(m, w, o, "point", i, 1) IN
  PointLoads(m.points[i], wa.u[1], o.point[i].rd, EndsAt(m, o, "p", i, 0), m.env)

RodLaw(m, w, o, i) ==
  LET R == m.rods[i]
      k == o.rod[i]
      wa == Water(m, w, o, "rod", i, R.n + 1)
  IN RodLoads([t |-> R.t, n |-> R.n, len |-> VNorm(VSub(R.b0, R.a0))],
       k.r, k.rd, wa.u, wa.ud, wa.zeta, wa.pdyn,
       TLCEval([j \in 1..(R.n + 1) |-> BedAt(m, k.r[j][1], k.r[j][2])]),
       EndsAt(m, o, "r", i, 0), EndsAt(m, o, "r", i, 1), m.env)

OnBody(s, b) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i].b = b)
BodyLaw(m, w, o, i) ==
  LET B == m.bodies[i]
      zero == [mass |-> "0.0", vol |-> "0.0", cg |-> Z3, I |-> Z3, CdA |-> Z6, Ca |-> Z6]
      ps == OnBody(m.points, i)
      rs == OnBody(m.rods, i)
      wa == Water(m, w, o, "body", i, 1)
  IN BodyLoads(IF B.k = "coupled" THEN zero ELSE B, Sub3(o.body[i].r), BodyR(o.body[i]), o.body[i].rd,
       wa.u[1],
       TLCEval([j \in 1..Len(ps) |-> [r |-> o.point[ps[j]].r, f |-> o.point[ps[j]].f, m |-> o.point[ps[j]].m]]),
       TLCEval([j \in 1..Len(rs) |-> [r |-> o.rod[rs[j]].r[1], f |-> o.rod[rs[j]].f, m |-> o.rod[rs[j]].m,
                              nr |-> o.rod[rs[j]].r, mn |-> RodLaw(m, w, o, rs[j]).mn]]),
       m.env)

(* ----------------------------- what is live ---------------------------- *)
(* fixed things carry no computed load *)
LivePoint(m, i) == m.points[i].k \in {"free", "coupled"} \/
                   (m.points[i].k = "body" /\ m.bodies[m.points[i].b].k # "fixed")
LiveRod(m, i) == m.rods[i].k \in {"free", "coupled", "cpldpin", "pinned", "bodypin"} \/
                 (m.rods[i].k = "body" /\ m.bodies[m.rods[i].b].k # "fixed")
LiveBody(m, i) == m.bodies[i].k # "fixed"
=============================================================================
