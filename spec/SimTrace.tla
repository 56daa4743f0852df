------------------------------- MODULE SimTrace -------------------------------
(***************************************************************************)
(* Recorded executions against the simulation of Sim: from the observed    *)
(* initial state on, the specification predicts the motion call by call.   *)
(*   w : driver state (World)    z : [S, h, ref, dtm, cfl, sc, it]             *)
(***************************************************************************)
EXTENDS Sim, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Checks == Range(ndJsonDeserialize(IOEnv.CHECKS)[1])

VARIABLES k, l, w, z
vars == <<k, l, w, z>>
T == Traces[k]
m == T[1]
ev == T[l]

Has(f) == f \in DOMAIN ev
On(name) == name \in Checks
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
V(name, i, want, got, rtol, atol) ==
  IF VClose(want, got, rtol, atol) THEN TRUE ELSE Say(name, i, want, got)
N(name, i, want, got, rtol, atol) ==
  IF FClose(want, got, rtol, atol) THEN TRUE ELSE Say(name, i, want, got)
B(name, i, c) == IF c THEN TRUE ELSE Say(name, i, "TRUE", "FALSE")

(* --------------------------- time step control ------------------------- *)
(* natural period of the segments of a line *)
Period(i, ul) == LET L == m.lines[i] s == FDiv(ul, FI(L.n)) IN
  FM3(FMul("2.0", Pi), s, FSqrt(FDiv(L.t.w, RefEA(L.t))))
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE FMin(Head(s), MinSeq(Tail(s)))
MinPeriod(ul) == MinSeq([i \in 1..Len(m.lines) |-> Period(i, ul[i])])
DtOf(cfl, ul) == FMul(cfl, MinPeriod(ul))
CflOf(dt, ul) == FDiv(dt, MinPeriod(ul))
(* what the options ask for: the most restrictive, or half of the period *)
DtInit(ul) ==
  IF m.dtm = "" /\ m.cfl = "" THEN DtOf("0.5", ul)
  ELSE IF m.cfl = "" THEN F(m.dtm)
  ELSE IF m.dtm = "" THEN DtOf(F(m.cfl), ul)
  ELSE FMin(F(m.dtm), DtOf(F(m.cfl), ul))

(* ------------------------------- behaviour ----------------------------- *)
Simple == {"Euler", "Heun", "RK2", "RK4", "AB2", "AB3", "AB4", "AB3last", "AB4last", "BEuler", "Midpoint", "ACA"}
Fail == ev.op = "crash" \/ (ev.op = "create" /\ ~ev.made) \/ (ev.op = "init" /\ ev.ret # 0)
ApplyW ==
  IF w.ph = "dead" THEN w
  ELSE IF Fail THEN [w EXCEPT !.ph = "dead"]
  ELSE IF ev.op = "init" THEN DoInit(m, w, ev)
  ELSE IF ev.op = "step" /\ ev.ret = 0 THEN DoStep(m, w, ev)
  ELSE IF ev.op = "setul" THEN [w EXCEPT !.ul[ev.line] = F(ev.v)]
  ELSE IF ev.op = "setulv" THEN [w EXCEPT !.ulv[ev.line] = F(ev.v)]
  ELSE IF ev.op = "setea" THEN [w EXCEPT !.ea[ev.line] = F(ev.v)]
  ELSE IF ev.op = "setpb" THEN [w EXCEPT !.pb[ev.line] = (ev.v = 1)]
  ELSE IF ev.op = "setpin" THEN [w EXCEPT !.pin[ev.line] = [j \in 1..Len(ev.v) |-> F(ev.v[j])]]
  ELSE w
\* u: the driver state of the step, with the unstretched lengths before it
ApplyZ(u) ==
  IF u.ph = "dead" \/ w.ph = "dead" THEN z
  ELSE IF ev.op = "init" THEN
    LET d == DtInit(u.ul) IN
    [z EXCEPT !.S = Take(m, ev.o), !.h = <<>>, !.ref = Ref(m, ev.o), !.dtm = d,
              !.cfl = CflOf(d, u.ul)]
  ELSE IF ev.op = "step" /\ ev.ret = 0 /\ FLt("0.0", ev.dt) /\ On("Sim") /\ z.sc \in Simple THEN
    LET r == Run(m, z.sc, z.it, [u EXCEPT !.ul = w.ul], z.ref, [S |-> z.S, h |-> z.h], "0.0", F(ev.dt), z.dtm) IN
    [z EXCEPT !.S = r.S, !.h = r.h]
  ELSE IF ev.op = "setdt" THEN [z EXCEPT !.dtm = F(ev.v), !.cfl = CflOf(F(ev.v), u.ul0)]
  ELSE IF ev.op = "setcfl" THEN [z EXCEPT !.cfl = F(ev.v), !.dtm = DtOf(F(ev.v), u.ul0)]
  ELSE IF ev.op = "setscheme" THEN [z EXCEPT !.sc = ev.sc, !.it = ev.it, !.h = <<>>]
  ELSE z

(* -------------------------------- checks ------------------------------- *)
TolR == "1.0E-8"
TolV == "1.0E-7"
CMotion(u, y) ==
  LET o == TLCEval(Kin(m, u, y.ref, y.S, IF ev.op = "init" THEN "0.0" ELSE F(ev.dt)))
      q == ev.o IN
  /\ \A i \in 1..Len(m.lines) : \A j \in 1..(m.lines[i].n + 1) :
       /\ V("Sim.line.pos", <<i, j>>, o.line[i].r[j], q.line[i].r[j], "1.0E-10", TolR)
       /\ V("Sim.line.vel", <<i, j>>, o.line[i].rd[j], q.line[i].rd[j], "1.0E-8", TolV)
  /\ \A i \in 1..Len(m.points) :
       /\ V("Sim.point.pos", i, o.point[i].r, q.point[i].r, "1.0E-10", TolR)
       /\ V("Sim.point.vel", i, o.point[i].rd, q.point[i].rd, "1.0E-8", TolV)
  /\ \A i \in 1..Len(m.rods) : LET n == m.rods[i].n IN
       /\ V("Sim.rod.posA", i, o.rod[i].r[1], q.rod[i].r[1], "1.0E-10", TolR)
       /\ V("Sim.rod.posB", i, o.rod[i].r[n+1], q.rod[i].r[n+1], "1.0E-10", TolR)
       /\ V("Sim.rod.velA", i, o.rod[i].rd[1], q.rod[i].rd[1], "1.0E-8", TolV)
       /\ V("Sim.rod.velB", i, o.rod[i].rd[n+1], q.rod[i].rd[n+1], "1.0E-8", TolV)
  /\ \A i \in 1..Len(m.bodies) :
       /\ V("Sim.body.pos", i, Sub3(o.body[i].r), Sub3(q.body[i].r), "1.0E-10", TolR)
       /\ V("Sim.body.rot", i, o.body[i].R, BodyR(q.body[i]), "0.0", TolR)
       /\ V("Sim.body.vel", i, o.body[i].rd, q.body[i].rd, "1.0E-8", TolV)

(* everything stays where it was *)
CSame(p, q) ==
  /\ \A i \in 1..Len(m.lines) : B("Time.still", i, p.line[i].r = q.line[i].r /\ p.line[i].rd = q.line[i].rd)
  /\ \A i \in 1..Len(m.points) : B("Time.still", i, p.point[i].r = q.point[i].r /\ p.point[i].rd = q.point[i].rd)
  /\ \A i \in 1..Len(m.rods) : B("Time.still", i, p.rod[i].r = q.rod[i].r)
  /\ \A i \in 1..Len(m.bodies) : B("Time.still", i, p.body[i].r = q.body[i].r)

Judge(u, y) ==
  IF w.ph = "dead" THEN TRUE ELSE
  /\ IF ev.op = "crash" THEN Say("Ok", ev.in, "no crash", ev.status) ELSE TRUE
  /\ IF ev.op = "create" THEN B("Ok", "create", ev.made) ELSE TRUE
  /\ IF Has("ret") THEN B("Ok", ev.op, ev.ret = 0) ELSE TRUE
  /\ IF On("Time") /\ ev.op = "step" /\ ev.ret = 0
     THEN N("Time.out", ev.dt, IF FLt("0.0", ev.dt) THEN FAdd(w.t, ev.dt) ELSE w.t, ev.tout, "1.0E-12", "1.0E-12") ELSE TRUE
  /\ IF On("Dt") /\ Has("o") THEN
       /\ N("Dt.step", ev.op, y.dtm, ev.o.dt, "1.0E-9", "0.0")
       /\ N("Dt.cfl", ev.op, y.cfl, ev.o.cfl, "1.0E-9", "0.0")
     ELSE TRUE
  /\ IF On("Time") /\ Has("still") THEN CSame(T[l-1].o, ev.o) ELSE TRUE
  /\ IF On("Sim") /\ Has("o") /\ ev.op = "step" /\ ev.ret = 0 /\ z.sc \in Simple
        /\ FLt("0.0", ev.dt) THEN CMotion(u, y) ELSE TRUE

Init == /\ k \in 1..Len(Traces) /\ l = 2 /\ w = Fresh(Traces[k][1])
        /\ z = [S |-> <<>>, h |-> <<>>, ref |-> <<>>, dtm |-> "0.0", cfl |-> "0.0", sc |-> Traces[k][1].sc, it |-> Traces[k][1].it]
Next == /\ l <= Len(T)
        /\ w' = ApplyW
        /\ z' = ApplyZ(w')
        /\ Judge(w', z')
        /\ l' = l + 1
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

(* every event of every trace has been consumed *)
Consumed == TLCGet("stats").distinct = SumI([j \in 1..Len(Traces) |-> Len(Traces[j])])
=============================================================================
