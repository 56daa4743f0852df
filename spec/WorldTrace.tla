------------------------------ MODULE WorldTrace ------------------------------
(***************************************************************************)
(* Recorded executions checked against World.  A trace is a sequence of    *)
(* events, the first one being the model.  Every named check which an      *)
(* event violates is reported as <<"REJECT", trace, event, check, ...>>.   *)
(***************************************************************************)
EXTENDS Outputs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Checks == Range(ndJsonDeserialize(IOEnv.CHECKS)[1])

VARIABLES k, l, w
vars == <<k, l, w>>

T == Traces[k]
m == T[1]
ev == T[l]

Has(f) == f \in DOMAIN ev
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
V(name, i, want, got, rtol, atol) ==
  IF VClose(want, got, rtol, atol) THEN TRUE ELSE Say(name, i, want, got)
N(name, i, want, got, rtol, atol) ==
  IF FClose(want, got, rtol, atol) THEN TRUE ELSE Say(name, i, want, got)
B(name, i, c) == IF c THEN TRUE ELSE Say(name, i, "TRUE", "FALSE")
On(name) == name \in Checks

(* ------------------------------- tolerances ---------------------------- *)
RT == "1.0E-6"
\* a probe moves nodes by less than 1e-9 m and changes speeds by less than 1e-7 m/s
TolX == "1.0E-9"
TolV == "1.0E-7"
LineTol(u, i) ==
  LET L == m.lines[i]
      le == FDiv(u.ul[i], FI(L.n))
      ea == FMax(u.ea[i], FMul("2.0", L.t.EA))
      ten == FAdd(FDiv(FMul(ea, TolX), le), FDiv(FMul(DampBA(L.t, L.n, u.ul0[i], "1.0"), TolV), le))
      EI == IF Len(L.t.EIc) > 0 THEN FDiv(L.t.EIc[2][2], L.t.EIc[2][1]) ELSE L.t.EI
      bs == FMul("4.0E-6", FDiv(EI, FMul(le, le)))
      bed == FMul(FAdd(FMul(m.env.kb, TolX), FMul(FAdd(m.env.cb, m.env.fd), TolV)), FMul(L.t.d, le))
  IN [ten |-> FAdd(ten, "1.0E-3"), bs |-> FAdd(bs, "1.0E-3"), bed |-> FAdd(bed, "1.0E-3")]

(* ------------------------------- attachment ---------------------------- *)
AttachTol == "1.0E-9"
EndPos(o, e) == IF e.k = "p" THEN o.point[e.i].r ELSE o.rod[e.i].r[IF e.e = 0 THEN 1 ELSE o.rod[e.i].n + 1]
EndVel(o, e) == IF e.k = "p" THEN o.point[e.i].rd ELSE o.rod[e.i].rd[IF e.e = 0 THEN 1 ELSE o.rod[e.i].n + 1]
CAttach(u, o, full) ==
  /\ \A i \in 1..Len(m.lines) : LET L == m.lines[i] IN
       /\ V("Attach.lineA.pos", i, EndPos(o, L.A), o.line[i].r[1], "1.0E-12", AttachTol)
       /\ V("Attach.lineB.pos", i, EndPos(o, L.B), o.line[i].r[L.n + 1], "1.0E-12", AttachTol)
       /\ V("Attach.lineA.vel", i, EndVel(o, L.A), o.line[i].rd[1], "1.0E-10", AttachTol)
       /\ V("Attach.lineB.vel", i, EndVel(o, L.B), o.line[i].rd[L.n + 1], "1.0E-10", AttachTol)
  /\ \A i \in 1..Len(m.points) : LET p == m.points[i] q == o.point[i] IN
       IF p.k = "fixed"
       THEN /\ V("Attach.fixedpoint.pos", i, p.r0, q.r, "1.0E-12", AttachTol)
            /\ V("Attach.fixedpoint.vel", i, Z3, q.rd, "0.0", AttachTol)
       ELSE IF p.k = "coupled"
       THEN LET s == SlotOf(m, "point", i) IN
            /\ V("Attach.coupledpoint.pos", i, VAdd(Part(u.x, s), VScale(u.dt, Part(u.xd, s))), q.r, "1.0E-12", AttachTol)
            /\ V("Attach.coupledpoint.vel", i, Part(u.xd, s), q.rd, "1.0E-12", AttachTol)
       ELSE IF p.k = "body"
       THEN LET b == o.body[p.b] IN
            /\ V("Attach.bodypoint.pos", i, CarriedPos(Sub3(b.r), BodyR(b), p.r0), q.r, "1.0E-10", "1.0E-8")
            /\ V("Attach.bodypoint.vel", i, CarriedVel(Sub3(b.rd), Tail3(b.rd), BodyR(b), p.r0), q.rd, "1.0E-9", "1.0E-8")
       ELSE TRUE
  /\ \A i \in 1..Len(m.bodies) : LET p == m.bodies[i] q == o.body[i] IN
       IF p.k = "fixed"
       THEN /\ V("Attach.fixedbody.pos", i, Sub3(p.r0), Sub3(q.r), "1.0E-12", AttachTol)
            /\ V("Attach.fixedbody.rot", i, RotXYZ([j \in 1..3 |-> Deg2Rad(p.r0[3+j])]), BodyR(q), "1.0E-9", "1.0E-9")
            /\ V("Attach.fixedbody.vel", i, Z6, q.rd, "0.0", AttachTol)
       ELSE IF p.k = "coupled"
       THEN LET s == SlotOf(m, "body", i)
                x == VAdd(Part(u.x, s), VScale(u.dt, Part(u.xd, s))) IN
            /\ V("Attach.coupledbody.pos", i, Sub3(x), Sub3(q.r), "1.0E-12", AttachTol)
            /\ V("Attach.coupledbody.rot", i, RotXYZ(Tail3(x)), BodyR(q), "1.0E-9", "1.0E-9")
            /\ V("Attach.coupledbody.vel", i, Part(u.xd, s), q.rd, "1.0E-12", AttachTol)
       ELSE IF p.k = "cpldpin"
       THEN LET s == SlotOf(m, "body", i) IN
            /\ V("Attach.pinnedbody.pos", i, VAdd(Part(u.x, s), VScale(u.dt, Part(u.xd, s))), Sub3(q.r), "1.0E-12", AttachTol)
            /\ V("Attach.pinnedbody.vel", i, Part(u.xd, s), Sub3(q.rd), "1.0E-12", AttachTol)
       ELSE TRUE
  /\ \A i \in 1..Len(m.rods) :
       LET p == m.rods[i]
           q == o.rod[i]
           n == p.n
           len == VNorm(VSub(p.b0, p.a0))
           q0 == VUnit(VSub(p.b0, p.a0)) IN
       \* rigid and straight
       /\ N("Attach.rod.length", i, len, VNorm(VSub(q.r[n+1], q.r[1])), "1.0E-9", AttachTol)
       /\ N("Attach.rod.rigid", i, "0.0", VDot(RodQ(q), VSub(q.rd[n+1], q.rd[1])), "0.0", "1.0E-8")
       /\ IF ~full \/ ~LiveRod(m, i) THEN TRUE ELSE \A j \in 2..n :
            /\ V("Attach.rod.straight", i, VAdd(VScale(FDiv(FI(n+1-j), FI(n)), q.r[1]), VScale(FDiv(FI(j-1), FI(n)), q.r[n+1])),
                 q.r[j], "1.0E-9", TolX)
            /\ V("Attach.rod.field", i, VAdd(VScale(FDiv(FI(n+1-j), FI(n)), q.rd[1]), VScale(FDiv(FI(j-1), FI(n)), q.rd[n+1])),
                 q.rd[j], "1.0E-9", TolV)
       /\ IF p.k \in {"coupled", "cpldpin"} THEN
            LET s == SlotOf(m, "rod", i)
                x == VAdd(Part(u.x, s), VScale(u.dt, Part(u.xd, s))) IN
            /\ V("Attach.coupledrod.pos", i, Sub3(x), q.r[1], "1.0E-12", AttachTol)
            /\ V("Attach.coupledrod.vel", i, Sub3(Part(u.xd, s)), q.rd[1], "1.0E-12", AttachTol)
            /\ IF p.k = "cpldpin" THEN TRUE ELSE
               /\ V("Attach.coupledrod.dir", i, MVec(RotXYZ(Tail3(x)), q0), RodQ(q), "1.0E-9", "1.0E-9")
               /\ V("Attach.coupledrod.velB", i,
                    VAdd(Sub3(Part(u.xd, s)), VCross(Tail3(Part(u.xd, s)), VSub(q.r[n+1], q.r[1]))), q.rd[n+1], "1.0E-9", "1.0E-9")
          ELSE IF p.k \in {"fixed", "pinned"} THEN
            /\ V("Attach.fixedrod.pos", i, p.a0, q.r[1], "1.0E-12", AttachTol)
            /\ V("Attach.fixedrod.vel", i, Z3, q.rd[1], "0.0", AttachTol)
            /\ IF p.k = "pinned" THEN TRUE ELSE V("Attach.fixedrod.posB", i, p.b0, q.r[n+1], "1.0E-9", AttachTol)
          ELSE IF p.k \in {"body", "bodypin"} THEN
            LET b == o.body[p.b] IN
            /\ V("Attach.bodyrod.pos", i, CarriedPos(Sub3(b.r), BodyR(b), p.a0), q.r[1], "1.0E-10", "1.0E-8")
            /\ V("Attach.bodyrod.vel", i, CarriedVel(Sub3(b.rd), Tail3(b.rd), BodyR(b), p.a0), q.rd[1], "1.0E-9", "1.0E-8")
            /\ IF p.k = "bodypin" THEN TRUE ELSE
               /\ V("Attach.bodyrod.posB", i, CarriedPos(Sub3(b.r), BodyR(b), p.b0), q.r[n+1], "1.0E-9", "1.0E-8")
               /\ V("Attach.bodyrod.velB", i, CarriedVel(Sub3(b.rd), Tail3(b.rd), BodyR(b), p.b0), q.rd[n+1], "1.0E-9", "1.0E-8")
          ELSE TRUE

(* -------------------------------- loads -------------------------------- *)
RECURSIVE MaxF(_)
MaxF(s) == IF Len(s) = 1 THEN s[1] ELSE FMax(Head(s), MaxF(Tail(s)))
CLine(u, o) ==
  \A i \in 1..Len(m.lines) :
    LET L == m.lines[i]
        k_ == o.line[i]
        a == LineLaw_(m, u, o, i)
        tol == LineTol(u, i)
        all == FAdd(FAdd(tol.ten, tol.bs), tol.bed)
    IN /\ N("Line.ul", i, u.ul[i], k_.ul, "1.0E-9", "1.0E-9")
       /\ \A j \in 1..(L.n + 1) :
          /\ V("Line.tension", <<i, j>>, a.ten[j], k_.ten[j], RT, tol.ten)
          /\ V("Line.weight", <<i, j>>, a.w[j], k_.w[j], RT, "1.0E-4")
          /\ V("Line.drag", <<i, j>>, a.drag[j], k_.drag[j], RT, "1.0E-3")
          /\ V("Line.froudekrylov", <<i, j>>, a.fk[j], k_.fk[j], RT, "1.0E-3")
          /\ V("Line.seabed", <<i, j>>, a.b[j], k_.b[j], RT, tol.bed)
          /\ V("Line.bending", <<i, j>>, a.bs[j], k_.bs[j], RT, tol.bs)
          /\ V("Line.mass", <<i, j>>, a.m[j], k_.m[j], RT, "1.0E-6")
          /\ N("Line.curvature", <<i, j>>, a.curv[j], k_.curv[j], RT, "1.0E-6")
          /\ V("Line.net", <<i, j>>, a.f[j], k_.f[j], RT, FMul("4.0", all))
       /\ LET mg(j) == VNorm(a.ten[j]) IN
          /\ N("Line.fairten", i, mg(L.n + 1), k_.ft, RT, tol.ten)
          /\ N("Line.maxten", i, MaxF([j \in 1..(L.n + 1) |-> mg(j)]), k_.mt, RT, tol.ten)
       (* single precision; the vertical part as FAST has it, less the weight of the mass of the node *)
       /\ \A q \in 1..2 :
          LET j == IF q = 1 THEN L.n + 1 ELSE 1
              at == FAdd(FMul("4.0", all), FMul("2.0E-7", FMul(m.env.g, a.m[j][1])))
          IN /\ N("Line.fast", <<i, "horizontal", j>>, VNorm(<<a.f[j][1], a.f[j][2], "0.0">>), k_.fast[2 * q - 1], "2.0E-6", at)
             /\ N("Line.fast", <<i, "vertical", j>>, FSub(a.f[j][3], FMul(m.env.g, a.m[j][1])), k_.fast[2 * q], "2.0E-6", at)

RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN "0.0" ELSE FAdd(VNorm(Head(s).f), SumN(Tail(s)))
MTol(v) == FAdd("1.0E-3", FMul("1.0E-7", VMaxAbs(v)))
CPoint(u, o) ==
  \A i \in 1..Len(m.points) : IF ~LivePoint(m, i) THEN TRUE ELSE
    LET a == PointLaw(m, u, o, i)
        sc == FAdd("1.0E-3", FMul("1.0E-6", FAdd("1.0", SumN(EndsAt(m, o, "p", i, 0))))) IN
    /\ V("Point.force", i, a.f, o.point[i].f, RT, sc)
    /\ V("Point.mass", i, a.m, o.point[i].m, RT, "1.0E-6")

Acc6(u, s) == LET p == Part(u.a, s) IN IF s.n = 6 THEN p ELSE p \o Z3
\* angular acceleration of an object whose reference point is driven
PinAcc(f, M, a3) == a3 \o MSolve(Block(M, 1, 1), VSub(Tail3(f), MVec(Block(M, 1, 0), a3)))
Expect(u, c, i, kind, f, M) ==
  IF kind = "coupled" THEN CoupledReaction(f, M, Acc6(u, SlotOf(m, c, i)))
  ELSE IF kind = "cpldpin"
  THEN PinnedReaction(f, M, PinAcc(f, M, Part(u.a, SlotOf(m, c, i))))
  ELSE f

CRod(u, o) ==
  \A i \in 1..Len(m.rods) : IF ~LiveRod(m, i) THEN TRUE ELSE
    LET a == RodLaw(m, u, o, i)
        R == m.rods[i]
        ends == EndsAt(m, o, "r", i, 0) \o EndsAt(m, o, "r", i, 1)
        len == VNorm(VSub(R.b0, R.a0))
        sc == FAdd(FMul("1.0E-6", FAdd(FMul(FAdd("1.0", FMul(R.t.w, m.env.g)), len), SumN(ends))),
                   FM3(FAdd(FMul(m.env.kb, TolX), FMul(m.env.cb, TolV)), R.t.d, len))
        e == Expect(u, "rod", i, R.k, a.f, a.m) IN
    /\ V("Rod.force", i, Sub3(e), Sub3(o.rod[i].f), RT, FMul("10.0", sc))
    /\ V("Rod.moment", i, Tail3(e), Tail3(o.rod[i].f), RT, FMul(FM3("10.0", sc, FAdd("1.0", len)), "1.0"))
    /\ V("Rod.mass", i, a.m, o.rod[i].m, RT, "1.0E-4")

CBody(u, o) ==
  \A i \in 1..Len(m.bodies) : IF ~LiveBody(m, i) THEN TRUE ELSE
    LET a == BodyLaw(m, u, o, i)
        Bd == m.bodies[i]
        ps == OnBody(m.points, i)
        rs == OnBody(m.rods, i)
        sc == FMul("1.0E-6", FAdd(FMul(FAdd(Bd.mass, FMul(Bd.vol, m.env.rho)), m.env.g),
                 SumN([j \in 1..(Len(ps) + Len(rs)) |->
                   IF j <= Len(ps) THEN [f |-> o.point[ps[j]].f] ELSE [f |-> o.rod[rs[j - Len(ps)]].f]])))
        e == Expect(u, "body", i, Bd.k, a.f, a.m) IN
    /\ V("Body.force", i, Sub3(e), Sub3(o.body[i].f), RT, FAdd("1.0E-3", sc))
    /\ V("Body.moment", i, Tail3(e), Tail3(o.body[i].f), RT, FMul("10.0", FAdd("1.0E-3", sc)))
    /\ V("Body.mass", i, a.m, o.body[i].m, RT, "1.0E-4")

(* the coupling vector is made of the objects' loads, in the order of x *)
CCouple(o) ==
  LET s == Slots(m) IN
  /\ B("Couple.size", Len(ev.f), Len(ev.f) >= NDof(m) /\ \A j \in (NDof(m)+1)..Len(ev.f) : ~FFinite(ev.f[j]))
  /\ \A j \in 1..Len(s) :
       LET g == IF s[j].c = "body" THEN o.body[s[j].i].f ELSE IF s[j].c = "rod" THEN o.rod[s[j].i].f
                ELSE o.point[s[j].i].f IN
       V("Couple.order", j, SubSeq(g, 1, s[j].n), Part(ev.f, s[j]), "1.0E-12", "1.0E-12")

(* sea bed queries *)
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN "0.0" ELSE FAdd(Head(s), SumF(Tail(s)))
CDepth ==
  IF m.bathy = <<>> THEN B("Bed.flat", 0, ~ev.has)
  ELSE LET all == TLCEval(Flat(m.bathy.z)) IN
  /\ B("Bed.ok", 0, ev.has /\ ev.ret = 0)
  /\ \A j \in 1..Len(ev.pts) :
       N("Bed.depth", j, BedAt(m, ev.pts[j][1], ev.pts[j][2]), ev.depths[j], "1.0E-9", "1.0E-9")
  /\ N("Bed.average", 0, FDiv(SumF(all), FI(Len(all))), ev.avg, "1.0E-9", "1.0E-9")
  /\ N("Bed.shallowest", 0, MaxF(all), ev.min, "1.0E-9", "1.0E-9")

(* what the getters say about the run time settings *)
CCtl(u, o) ==
  \A i \in 1..Len(m.lines) : LET c == Len(m.lines[i].t.EAc) = 0 IN
    /\ B("Ctl.constant", i, o.line[i].cea = (IF c THEN 1 ELSE 0))
    /\ IF c THEN N("Ctl.EA", i, u.ea[i], o.line[i].ea, "1.0E-12", "0.0") ELSE TRUE
    /\ B("Ctl.pressure", i, o.line[i].pb = (IF u.pb[i] THEN 1 ELSE 0))
    /\ N("Ctl.length", i, u.ul[i], o.line[i].ul, "1.0E-12", "1.0E-9")
(* water kinematics *)
CKin1(u, n, pos, q) ==
  LET a == SeaHere(m, u, pos)
      sz == Size(u.sea.cs) IN
  IF ~Specified(m.sea, u.sea, u.t) THEN TRUE ELSE
  /\ N("Water.zeta", n, a[1], q.zeta, "0.0", FMul("2.0E-5", sz))
  /\ V("Water.vel", n, SubSeq(a, 2, 4), q.U, "0.0", FMul("2.0E-5", sz))
  /\ V("Water.acc", n, SubSeq(a, 5, 7), q.Ud, "0.0", FMul("2.0E-5", sz))
  /\ N("Water.pressure", n, a[8], q.pdyn, "0.0", FM3("2.0E-5", FMul(m.env.rho, m.env.g), sz))
CKin(u) == \A j \in 1..Len(ev.pts) : CKin1(u, j, ev.pts[j], ev.kin[j])
CWk(u, o) ==
  /\ \A i \in 1..Len(m.lines) : \A j \in 1..(m.lines[i].n + 1) : CKin1(u, <<"line", i, j>>, o.line[i].r[j], o.wk.line[i][j])
  /\ \A i \in 1..Len(m.rods) : \A j \in 1..(m.rods[i].n + 1) : CKin1(u, <<"rod", i, j>>, o.rod[i].r[j], o.wk.rod[i][j])
  /\ \A i \in 1..Len(m.points) : CKin1(u, <<"point", i>>, o.point[i].r, o.wk.point[i][1])
  /\ \A i \in 1..Len(m.bodies) : CKin1(u, <<"body", i>>, Sub3(o.body[i].r), o.wk.body[i][1])
CWaveNum ==
  LET a == WaveNum(ev.omega, ev.g, ev.depth) IN N("Water.number", 0, a, ev.k, "1.0E-6", "0.0")
(* where the user is asked for the water kinematics *)
CCoord(o) ==
  LET want == Flat([i \in 1..Len(m.lines) |-> o.line[i].r]) \o Flat([i \in 1..Len(m.rods) |-> o.rod[i].r])
              \o [i \in 1..Len(m.points) |-> o.point[i].r] \o <<Z3>> \o [i \in 1..Len(m.bodies) |-> Sub3(o.body[i].r)] IN
  /\ B("Ext.n", Len(ev.pts), Len(ev.pts) = Len(want))
  /\ \A j \in 1..Len(want) : IF j > Len(ev.pts) THEN TRUE
       ELSE V("Ext.place", j, want[j], ev.pts[j], "1.0E-12", "1.0E-9")
(* an output file, read after the instance was closed *)
CFile(u) ==
  LET f == ev.what
      nh == IF m.out.units THEN 2 ELSE 1
      C == u.calls
      e(j) == T[C[j].l]
      cols(j) == Cols(m, [u EXCEPT !.xd = e(j).xd], e(j).o, f, j = 1, C[j].probe)
      head == cols(1)
      n == Len(head)
      body == SubSeq(ev.rows, nh + 1, Len(ev.rows))
      times == [j \in 1..Len(body) |-> IF Len(body[j]) = 0 \/ ~FIsNum(body[j][1]) THEN "nan" ELSE body[j][1]]
      S == TLCEval(IF FEq(m.out.dtout, "0.0") THEN [j \in 1..Len(body) |-> j] ELSE Match(times, C, 2))
  IN /\ B("Out.exists", f, ev.exists /\ Len(ev.rows) >= nh)
     /\ IF ~ev.exists \/ Len(ev.rows) < nh THEN TRUE ELSE
        /\ B("Out.names", <<f, ev.rows[1]>>, ev.rows[1] = <<"Time">> \o [j \in 1..n |-> head[j].name])
        /\ IF m.out.units
           THEN B("Out.units", <<f, ev.rows[2]>>, ev.rows[2] = <<"(s)">> \o [j \in 1..n |-> head[j].unit]) ELSE TRUE
        /\ B("Out.rows", <<f, Len(body), Len(C), S>>,
             IF FEq(m.out.dtout, "0.0") THEN Len(body) = Len(C) ELSE RowsOk(m.out.dtout, C, S))
        /\ \A j \in 1..Len(body) : IF j > Len(S) \/ S[j] = 0 \/ S[j] > Len(C) THEN TRUE ELSE
             LET c == TLCEval(cols(S[j])) row == body[j] IN
             IF Len(row) # n + 1 THEN Say("Out.width", <<f, j>>, n + 1, Len(row)) ELSE
             /\ N("Out.time", <<f, j>>, C[S[j]].t1, times[j], "6.0E-6", "1.0E-9")
             /\ \A q \in 1..n :
                  IF ~FIsNum(row[q + 1]) THEN Say("Out.value", <<f, j, c[q].name>>, "number", row[q + 1])
                  ELSE IF c[q].val = Free_ THEN TRUE
                  ELSE N("Out.value", <<f, j, c[q].name>>, c[q].val.v, row[q + 1], "6.0E-6", FAdd("1.0E-30", c[q].val.a))

CTime(u) ==
  /\ N("Time.out", l, FAdd(w.t, ev.dt), ev.tout, "1.0E-12", "1.0E-12")

(* ------------------------------- behaviour ----------------------------- *)
\* calls that may write a row of the output files
Called(u) == IF "out" \notin DOMAIN m \/ (ev.op = "step" /\ ~FLt("0.0", ev.dt)) THEN u
             ELSE [u EXCEPT !.calls = Append(@, [t0 |-> IF ev.op = "init" THEN u.t ELSE w.t, t1 |-> u.t, l |-> l,
                                                 probe |-> Has("probe")])]
Apply ==
  IF w.ph = "dead" THEN w
  ELSE IF ev.op = "crash" \/ (ev.op = "create" /\ ~ev.made) \/ (ev.op = "init" /\ ev.ret # 0)
  THEN [w EXCEPT !.ph = "dead"]
  ELSE IF ev.op = "init" THEN Called(DoInit(m, w, ev))
  ELSE IF ev.op = "step" THEN IF Has("ret") /\ ev.ret = 0 THEN Called(DoStep(m, w, ev)) ELSE w
  ELSE IF ev.op = "setul" THEN [w EXCEPT !.ul[ev.line] = F(ev.v)]
  ELSE IF ev.op = "setulv" THEN [w EXCEPT !.ulv[ev.line] = F(ev.v)]
  ELSE IF ev.op = "setea" THEN [w EXCEPT !.ea[ev.line] = F(ev.v)]
  ELSE IF ev.op = "setpb" THEN [w EXCEPT !.pb[ev.line] = (ev.v = 1)]
  ELSE IF ev.op = "setpin" THEN [w EXCEPT !.pin[ev.line] = [j \in 1..Len(ev.v) |-> F(ev.v[j])]]
  ELSE IF ev.op = "extset" THEN [w EXCEPT !.U = ev.U, !.A = ev.A]
  ELSE IF ev.op = "close" THEN [w EXCEPT !.ph = "closed"]
  ELSE w

(* the instance has the objects of the model *)
Shape(o) ==
  /\ Len(o.line) = Len(m.lines) /\ Len(o.point) = Len(m.points)
  /\ Len(o.rod) = Len(m.rods) /\ Len(o.body) = Len(m.bodies)
  /\ \A i \in 1..Len(m.lines) : o.line[i].n = m.lines[i].n
  /\ \A i \in 1..Len(m.rods) : o.rod[i].n = m.rods[i].n

Judge(u) ==
  IF w.ph = "dead" THEN TRUE ELSE
  /\ IF ev.op = "crash" THEN Say("Ok", ev.in, "no crash", ev.status) ELSE TRUE
  /\ IF ev.op = "create" THEN B("Ok", "create", ev.made) ELSE TRUE
  /\ IF Has("ret") /\ ev.op # "depth" THEN B("Ok", ev.op, ev.ret = 0) ELSE TRUE
  /\ IF ev.op = "depth" /\ On("Bed") THEN CDepth ELSE TRUE
  /\ IF ev.op = "readout" /\ On("Out") THEN CFile(u) ELSE TRUE
  /\ IF ev.op = "kin" /\ On("Water") THEN CKin(u) ELSE TRUE
  /\ IF ev.op = "wavenumber" /\ On("Water") THEN CWaveNum ELSE TRUE
  /\ IF ev.op \in {"extinit", "extn"} /\ On("Ext") THEN B("Ext.n", ev.op, ev.n = ExtN(m)) ELSE TRUE
  /\ IF ev.op = "extcoord" /\ On("Ext") THEN CCoord(ev.o) ELSE TRUE
  /\ IF ev.op = "create" /\ On("Couple") THEN B("Couple.ndof", ev.ndof, ev.ndof = NDof(m)) ELSE TRUE
  /\ IF ev.op = "step" /\ On("Time") THEN CTime(u) ELSE TRUE
  /\ IF Has("o") /\ On("Ctl") /\ Shape(ev.o) THEN CCtl(u, ev.o) ELSE TRUE
  /\ IF Has("o") /\ ev.op \in {"init", "step"} /\ ev.ret = 0 THEN
       IF ~Shape(ev.o) THEN Say("Shape", 0, "model", "other") ELSE
       LET probe == ev.op = "step" /\ Has("probe") IN
       /\ IF On("Attach") THEN CAttach(u, ev.o, probe) ELSE TRUE
       /\ IF On("Water") /\ "wk" \in DOMAIN ev.o THEN CWk(u, ev.o) ELSE TRUE
       /\ IF On("Couple") /\ ev.op = "step" THEN CCouple(ev.o) ELSE TRUE
       /\ IF probe THEN
            /\ IF On("Line") THEN CLine(u, ev.o) ELSE TRUE
            /\ IF On("Point") THEN CPoint(u, ev.o) ELSE TRUE
            /\ IF On("Rod") THEN CRod(u, ev.o) ELSE TRUE
            /\ IF On("Body") THEN CBody(u, ev.o) ELSE TRUE
          ELSE TRUE
     ELSE TRUE

Init == k \in 1..Len(Traces) /\ l = 2 /\ w = Fresh(Traces[k][1])
Next == /\ l <= Len(T)
        /\ w' = Apply
        /\ Judge(w')
        /\ l' = l + 1
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

(* every event of every trace has been consumed *)
Consumed == TLCGet("stats").distinct = SumI([j \in 1..Len(Traces) |-> Len(Traces[j])])
=============================================================================
