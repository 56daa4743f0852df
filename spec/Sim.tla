--------------------------------- MODULE Sim ---------------------------------
(***************************************************************************)
(* The simulation itself: the state of everything which moves freely, its  *)
(* rate of change according to the load laws, and how the time schemes     *)
(* advance it.  Together with World this is an executable specification of *)
(* the simulator: given the model and the calls, it predicts the motion.   *)
(*                                                                         *)
(* The state is a flat vector: for every line its internal nodes           *)
(* (positions, then velocities), for every free point (position, velocity),*)
(* for every free rod or body (position, quaternion, velocities), for the  *)
(* pinned ones (quaternion, angular velocity).  Quaternions are rotations  *)
(* from the initial orientation; only their direction matters.             *)
(***************************************************************************)
EXTENDS World

(* ------------------------------ quaternions ---------------------------- *)
QMul(a, b) ==
  <<FSub(FMul(a[1], b[1]), VDot(SubSeq(a, 2, 4), SubSeq(b, 2, 4)))>> \o
  VAdd(VAdd(VScale(a[1], SubSeq(b, 2, 4)), VScale(b[1], SubSeq(a, 2, 4))),
       VCross(SubSeq(a, 2, 4), SubSeq(b, 2, 4)))
QOne == <<"1.0", "0.0", "0.0", "0.0">>
(* rate of change under the angular velocity om (global axes) *)
QRate(om, q) == VScale("0.5", QMul(<<"0.0">> \o om, q))
QRot(p) ==
  LET q == VUnit(p)
      w == q[1] x == q[2] y == q[3] z == q[4]
      d(a, b) == FSub("1.0", FMul("2.0", FAdd(FMul(a, a), FMul(b, b))))
      e(a, b, c, s) == FMul("2.0", FAdd(FMul(a, b), FM3(s, c, w)))
  IN <<d(y, z), e(x, y, z, "-1.0"), e(x, z, y, "1.0"),
       e(x, y, z, "1.0"), d(x, z), e(y, z, x, "-1.0"),
       e(x, z, y, "-1.0"), e(y, z, x, "1.0"), d(x, y)>>

(* -------------------------------- layout ------------------------------- *)
Dim(m, c, i) ==
  IF c = "line" THEN 6 * (m.lines[i].n - 1)
  ELSE IF c = "point" THEN IF m.points[i].k = "free" THEN 6 ELSE 0
  ELSE LET k == IF c = "rod" THEN m.rods[i].k ELSE m.bodies[i].k IN
       IF k = "free" THEN 13 ELSE IF k \in {"pinned", "cpldpin"} THEN 7 ELSE 0
Objects(m) ==
  [i \in 1..Len(m.lines) |-> <<"line", i>>] \o [i \in 1..Len(m.points) |-> <<"point", i>>]
  \o [i \in 1..Len(m.rods) |-> <<"rod", i>>] \o [i \in 1..Len(m.bodies) |-> <<"body", i>>]
Dims(m) == LET ob == Objects(m) IN [j \in 1..Len(ob) |-> Dim(m, ob[j][1], ob[j][2])]
Num(m, c, i) == IF c = "line" THEN i ELSE IF c = "point" THEN Len(m.lines) + i
                ELSE IF c = "rod" THEN Len(m.lines) + Len(m.points) + i
                ELSE Len(m.lines) + Len(m.points) + Len(m.rods) + i
Off(m, c, i) == LET d == Dims(m) IN SumI([j \in 1..(Num(m, c, i) - 1) |-> d[j]])
Of(m, S, c, i) == LET o == Off(m, c, i) IN SubSeq(S, o + 1, o + Dim(m, c, i))
Vec3(v, j) == SubSeq(v, 3*j - 2, 3*j)      \* j-th triple

(* --------------------------- initial state ----------------------------- *)
(* ref: orientations the quaternions start from *)
Ref(m, o) == [body |-> TLCEval([i \in 1..Len(m.bodies) |-> BodyR(o.body[i])]),
              rod  |-> TLCEval([i \in 1..Len(m.rods) |-> RodQ(o.rod[i])])]
(* angular velocity of a rod without its spin, which nothing shows *)
RodW(o) == LET d == VSub(o.r[o.n + 1], o.r[1]) IN
           VScale(FDiv("1.0", VDot(d, d)), VCross(d, VSub(o.rd[o.n + 1], o.rd[1])))
Take(m, o) ==
  LET ln(i) == LET n == m.lines[i].n IN
        Flat([j \in 1..(n-1) |-> o.line[i].r[j+1]]) \o Flat([j \in 1..(n-1) |-> o.line[i].rd[j+1]])
      pt(i) == IF m.points[i].k = "free" THEN o.point[i].r \o o.point[i].rd ELSE <<>>
      rd(i) == LET k == m.rods[i].k IN
        IF k = "free" THEN o.rod[i].r[1] \o QOne \o o.rod[i].rd[1] \o RodW(o.rod[i])
        ELSE IF k \in {"pinned", "cpldpin"} THEN QOne \o RodW(o.rod[i]) ELSE <<>>
      bd(i) == LET k == m.bodies[i].k IN
        IF k = "free" THEN Sub3(o.body[i].r) \o QOne \o o.body[i].rd
        ELSE IF k = "cpldpin" THEN QOne \o Tail3(o.body[i].rd) ELSE <<>>
  IN TLCEval(Flat([i \in 1..Len(m.lines) |-> ln(i)]) \o Flat([i \in 1..Len(m.points) |-> pt(i)])
             \o Flat([i \in 1..Len(m.rods) |-> rd(i)]) \o Flat([i \in 1..Len(m.bodies) |-> bd(i)]))

(* ----------------------- kinematics of everything ---------------------- *)
(* u: driver state of the call (x, xd); tl: time since the call began      *)
Kin(m, u, ref, S, tl) ==
  LET cx(c, i) == LET s == SlotOf(m, c, i) IN VAdd(Part(u.x, s), VScale(tl, Part(u.xd, s)))
      cv(c, i) == Part(u.xd, SlotOf(m, c, i))
      body == TLCEval([i \in 1..Len(m.bodies) |->
        LET b == m.bodies[i] s == Of(m, S, "body", i) IN
        IF b.k = "fixed" THEN [r |-> b.r0, R |-> ref.body[i], rd |-> Z6]
        ELSE IF b.k = "coupled"
        THEN LET x == cx("body", i) IN [r |-> x, R |-> RotXYZ(Tail3(x)), rd |-> cv("body", i)]
        ELSE IF b.k = "cpldpin"
        THEN [r |-> cx("body", i) \o Z3, R |-> MMul(QRot(SubSeq(s, 1, 4)), ref.body[i]),
              rd |-> cv("body", i) \o SubSeq(s, 5, 7)]
        ELSE [r |-> Sub3(s) \o Z3, R |-> MMul(QRot(SubSeq(s, 4, 7)), ref.body[i]), rd |-> SubSeq(s, 8, 13)]])
      mk(R, a, d, va, om) ==
        LET len == VNorm(VSub(R.b0, R.a0)) n == R.n
            e(j) == VScale(FMul(FDiv(FI(j - 1), FI(n)), len), d) IN
        [n |-> n, r |-> TLCEval([j \in 1..(n+1) |-> VAdd(a, e(j))]),
         rd |-> TLCEval([j \in 1..(n+1) |-> VAdd(va, VCross(om, e(j)))])]
      rod == TLCEval([i \in 1..Len(m.rods) |->
        LET R == m.rods[i] s == Of(m, S, "rod", i) q0 == VUnit(VSub(R.b0, R.a0)) IN
        IF R.k = "fixed" THEN mk(R, R.a0, q0, Z3, Z3)
        ELSE IF R.k = "body" THEN LET b == body[R.b] IN
             mk(R, CarriedPos(Sub3(b.r), b.R, R.a0), MVec(b.R, q0),
                CarriedVel(Sub3(b.rd), Tail3(b.rd), b.R, R.a0), Tail3(b.rd))
        ELSE IF R.k = "coupled" THEN LET x == cx("rod", i) v == cv("rod", i) IN
             mk(R, Sub3(x), MVec(RotXYZ(Tail3(x)), q0), Sub3(v), Tail3(v))
        ELSE IF R.k = "cpldpin" THEN mk(R, cx("rod", i), MVec(QRot(SubSeq(s, 1, 4)), ref.rod[i]), cv("rod", i), SubSeq(s, 5, 7))
        ELSE IF R.k = "pinned" THEN mk(R, R.a0, MVec(QRot(SubSeq(s, 1, 4)), ref.rod[i]), Z3, SubSeq(s, 5, 7))
        ELSE mk(R, Sub3(s), MVec(QRot(SubSeq(s, 4, 7)), ref.rod[i]), SubSeq(s, 8, 10), SubSeq(s, 11, 13))])
      point == TLCEval([i \in 1..Len(m.points) |->
        LET p == m.points[i] IN
        IF p.k = "fixed" THEN [r |-> p.r0, rd |-> Z3]
        ELSE IF p.k = "coupled" THEN [r |-> cx("point", i), rd |-> cv("point", i)]
        ELSE IF p.k = "body" THEN LET b == body[p.b] IN
             [r |-> CarriedPos(Sub3(b.r), b.R, p.r0), rd |-> CarriedVel(Sub3(b.rd), Tail3(b.rd), b.R, p.r0)]
        ELSE LET s == Of(m, S, "point", i) IN [r |-> Sub3(s), rd |-> Tail3(s)]])
      e0 == [point |-> point, rod |-> rod]
      end(e, f) == IF e.k = "p" THEN (IF f = 0 THEN point[e.i].r ELSE point[e.i].rd)
                   ELSE LET j == IF e.e = 0 THEN 1 ELSE rod[e.i].n + 1 IN
                        (IF f = 0 THEN rod[e.i].r[j] ELSE rod[e.i].rd[j])
      line == TLCEval([i \in 1..Len(m.lines) |->
        LET L == m.lines[i] s == Of(m, S, "line", i) n == L.n IN
        [r |-> <<end(L.A, 0)>> \o [j \in 1..(n-1) |-> Vec3(s, j)] \o <<end(L.B, 0)>>,
         rd |-> <<end(L.A, 1)>> \o [j \in 1..(n-1) |-> Vec3(s, n - 1 + j)] \o <<end(L.B, 1)>>]])
  IN [body |-> body, rod |-> rod, point |-> point, line |-> line]

(* ----------------------------- rate of change -------------------------- *)
Rate(m, u0, ref, S, tl) ==
  LET u == [u0 EXCEPT !.ul = TLCEval([i \in DOMAIN u0.ul |-> FAdd(u0.ul[i], FMul(tl, u0.ulv[i]))])]
      o0 == TLCEval(Kin(m, u, ref, S, tl))
      ll == TLCEval([i \in 1..Len(m.lines) |-> LineLaw_(m, u, o0, i)])
      o1 == [o0 EXCEPT !.line = TLCEval([i \in 1..Len(m.lines) |->
                 [r |-> o0.line[i].r, rd |-> o0.line[i].rd, f |-> ll[i].f, m |-> ll[i].m]])]
      pl == TLCEval([i \in 1..Len(m.points) |->
               IF LivePoint(m, i) THEN PointLaw(m, u, o1, i) ELSE [f |-> Z3, m |-> Z9]])
      rl == TLCEval([i \in 1..Len(m.rods) |->
               IF LiveRod(m, i) THEN RodLaw(m, u, o1, i) ELSE [f |-> Z6, m |-> Z36]])
      o2 == [o1 EXCEPT !.point = TLCEval([i \in 1..Len(m.points) |->
                          [r |-> o0.point[i].r, rd |-> o0.point[i].rd, f |-> pl[i].f, m |-> pl[i].m]]),
                       !.rod = TLCEval([i \in 1..Len(m.rods) |->
                          [n |-> o0.rod[i].n, r |-> o0.rod[i].r, rd |-> o0.rod[i].rd, f |-> rl[i].f, m |-> rl[i].m]])]
      acc3(c, i) == IF (IF c = "rod" THEN m.rods[i].k ELSE m.bodies[i].k) = "cpldpin"
                    THEN Part(u.a, SlotOf(m, c, i)) ELSE Z3
      turn(c, i, f, M) == MSolve(Block(M, 1, 1), VSub(Tail3(f), MVec(Block(M, 1, 0), acc3(c, i))))
      dl(i) == LET L == m.lines[i] s == Of(m, S, "line", i) h == 3 * (L.n - 1) IN
               SubSeq(s, h + 1, 2 * h) \o
               Flat([j \in 1..(L.n - 1) |-> MSolve(ll[i].m[j+1], ll[i].f[j+1])])
      dp(i) == IF m.points[i].k # "free" THEN <<>>
               ELSE Tail3(Of(m, S, "point", i)) \o MSolve(pl[i].m, pl[i].f)
      dq(c, i, k, l) == LET s == Of(m, S, c, i) IN
               IF k = "free" THEN SubSeq(s, 8, 10) \o QRate(SubSeq(s, 11, 13), SubSeq(s, 4, 7)) \o MSolve(l.m, l.f)
               ELSE IF k \in {"pinned", "cpldpin"}
               THEN QRate(SubSeq(s, 5, 7), SubSeq(s, 1, 4)) \o turn(c, i, l.f, l.m)
               ELSE <<>>
  IN TLCEval(Flat([i \in 1..Len(m.lines) |-> dl(i)]) \o Flat([i \in 1..Len(m.points) |-> dp(i)])
     \o Flat([i \in 1..Len(m.rods) |-> dq("rod", i, m.rods[i].k, rl[i])])
     \o Flat([i \in 1..Len(m.bodies) |->
          IF m.bodies[i].k \in {"free", "cpldpin"} THEN dq("body", i, m.bodies[i].k, BodyLaw(m, u, o2, i)) ELSE <<>>]))

(* ------------------------------ time schemes --------------------------- *)
(* s: [S |-> state, h |-> the rates kept from former time steps, newest    *)
(* first].  A time step of dt which begins tl after the call did.          *)
ABC == << <<"1.0">>, <<"1.5", "-0.5">>,
          <<FDiv("23.0", "12.0"), FDiv("-4.0", "3.0"), FDiv("5.0", "12.0")>>,
          <<FDiv("55.0", "24.0"), FDiv("-59.0", "24.0"), FDiv("37.0", "24.0"), FDiv("-3.0", "8.0")>> >>
Order(sc) == IF sc = "AB2" THEN 2 ELSE IF sc \in {"AB3", "AB3last"} THEN 3 ELSE 4
(* variant which describes a known finding (known-findings.txt, P12):      *)
(* all the former rates are replaced by the latest one of them             *)
Past(sc, h) == IF sc \in {"AB3last", "AB4last"} THEN [j \in 1..Len(h) |-> h[1]] ELSE h
Axpy(y, a, x) == VAdd(y, VScale(a, x))
(* implicit schemes: it under-relaxed evaluations of the final rate *)
Relax(it, i, c0, c1) ==
  LET x == FMul("4.0", FSub(FDiv(FI(i), FI(it)), "0.5")) IN
  FAdd(FMul(c0, FSub("1.0", FDiv("1.0", FI(it)))),
       FMul(c1, FSub("1.0", FHalf(FAdd(FTanh(x), "1.0")))))
Mix(a, b, f) == VAdd(VScale(FSub("1.0", f), a), VScale(f, b))
RECURSIVE Iterate(_, _, _, _, _, _)
(* x -> G(x) evaluated it times, all of them but the last one relaxed *)
Iterate(x, i, it, G(_), c0, c1) ==
  LET y == TLCEval(G(x)) IN
  IF i = it THEN y ELSE Iterate(TLCEval(Mix(y, x, Relax(it, i, c0, c1))), i + 1, it, G, c0, c1)
(* average constant acceleration between the rates a and b *)
Newmark(m, a, b, dt) ==
  LET q == FMul("0.25", dt)
      pos(v, c, d) == VAdd(v, VScale(q, VAdd(c, d)))
      avg(x, y) == VScale("0.5", VAdd(x, y))
      one(c, i) ==
        LET x == Of(m, a, c, i) y == Of(m, b, c, i) n == Len(x) IN
        IF n = 0 THEN <<>>
        ELSE IF c \in {"line", "point"}
        THEN LET h == n \div 2 IN
             pos(SubSeq(x, 1, h), SubSeq(x, h+1, n), SubSeq(y, h+1, n)) \o avg(SubSeq(x, h+1, n), SubSeq(y, h+1, n))
        ELSE IF n = 13
        THEN pos(SubSeq(x, 1, 3), SubSeq(x, 8, 10), SubSeq(y, 8, 10)) \o avg(SubSeq(x, 4, 13), SubSeq(y, 4, 13))
        ELSE avg(x, y)
      ob == Objects(m)
  IN TLCEval(Flat([j \in 1..Len(ob) |-> one(ob[j][1], ob[j][2])]))
Advance(m, sc, it, u, ref, s, tl, dt) ==
  LET fn(S, q) == TLCEval(Rate(m, u, ref, S, FAdd(tl, q)))
      half == FHalf(dt) IN
  IF sc = "Euler" THEN [s EXCEPT !.S = Axpy(@, dt, fn(@, "0.0"))]
  ELSE IF sc = "RK2" THEN
    LET k1 == fn(s.S, "0.0")
        k2 == fn(Axpy(s.S, half, k1), half)
    IN [s EXCEPT !.S = Axpy(@, dt, k2)]
  ELSE IF sc = "RK4" THEN
    LET k1 == fn(s.S, "0.0")
        k2 == fn(Axpy(s.S, half, k1), half)
        k3 == fn(Axpy(s.S, half, k2), half)
        k4 == fn(Axpy(s.S, dt, k3), dt)
    IN [s EXCEPT !.S = Axpy(Axpy(@, FDiv(dt, "6.0"), VAdd(k1, k4)), FDiv(dt, "3.0"), VAdd(k2, k3))]
  ELSE IF sc = "Heun" THEN     \* the predictor reuses the latest rate
    LET p == IF s.h = <<>> THEN VScale("0.0", s.S) ELSE s.h[1]
        pr == Axpy(s.S, dt, p)
        k == fn(pr, "0.0")
    IN [S |-> Axpy(pr, half, VSub(k, p)), h |-> <<k>>]
  ELSE IF sc \in {"BEuler", "Midpoint"} THEN
    LET q == IF sc = "BEuler" THEN dt ELSE half
        p == IF s.h = <<>> THEN VScale("0.0", s.S) ELSE s.h[1]
        k == Iterate(p, 1, it, LAMBDA x : fn(Axpy(s.S, q, x), q), "0.9", "0.0")
    IN [S |-> Axpy(s.S, dt, k), h |-> <<k>>]
  ELSE IF sc = "ACA" THEN
    LET p == IF s.h = <<>> THEN VScale("0.0", s.S) ELSE s.h[1]
        k == Iterate(p, 1, it, LAMBDA x : fn(Axpy(s.S, dt, Newmark(m, p, x, dt)), dt), "0.9", "0.15")
    IN [S |-> Axpy(s.S, dt, Newmark(m, p, k, dt)), h |-> <<k>>]
  ELSE                         \* Adams-Bashforth, growing up to its order
    LET k == fn(s.S, "0.0")
        h == SubSeq(<<k>> \o Past(sc, s.h), 1, IF Len(s.h) + 1 < Order(sc) THEN Len(s.h) + 1 ELSE Order(sc))
        c == ABC[Len(h)]
    IN [S |-> VAdd(s.S, VScale(dt, VSumSeq([j \in 1..Len(h) |-> VScale(c[j], h[j])], VScale("0.0", s.S)))), h |-> h]

(* a call covers its time with steps not longer than dtm *)
RECURSIVE Run(_, _, _, _, _, _, _, _, _)
Run(m, sc, it, u, ref, s, tl, left, dtm) ==
  IF ~FLt("0.0", left) THEN s
  ELSE LET dt == FMin(left, dtm)
           s2 == TLCEval(Advance(m, sc, it, u, ref, s, tl, dt))
       IN Run(m, sc, it, u, ref, s2, FAdd(tl, dt), FSub(left, dt), dtm)
=============================================================================
