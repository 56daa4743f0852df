----------------------------- MODULE StartTrace -----------------------------
(***************************************************************************)
(* Recorded beginnings of simulations checked against Start.  In a trace   *)
(* the instance "a" is initialised; the instance "r", if any, is the same  *)
(* system with its drag multiplied by CdScaleIC, stepped by hand.          *)
(***************************************************************************)
EXTENDS Start, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, l
vars == <<k, l>>
T == Traces[k]
m == T[1]
ev == T[l]
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
V(name, i, want, got, rtol, atol) ==
  IF VClose(want, got, rtol, atol) THEN TRUE ELSE Say(name, i, want, got)
N(name, i, want, got, rtol, atol) ==
  IF FClose(want, got, rtol, atol) THEN TRUE ELSE Say(name, i, want, got)
Eq(name, i, want, got) == IF want = got THEN TRUE ELSE Say(name, i, want, got)

(* --------------------------- without relaxation ------------------------ *)
CProfile(o) ==
  \A i \in 1..Len(m.lines) :
    LET L == m.lines[i]
        q == o.line[i]
        a == q.r[1]
        b == q.r[L.n + 1]
        D == VNorm(VSub(b, a))
        ul == IF FLt(L.ul, "0.0") THEN FMul(FNeg(L.ul), D) ELSE L.ul
        W == SubWeight(m, L.t)
        EA == LineEA(L.t)
        lie == OnBed(m, a) \/ OnBed(m, b)
        XF == Horiz(a, b)
        ZF == FAbs(FSub(b[3], a[3]))
        wit == ev.wit[i]
        c == [H |-> wit[1], V |-> wit[2], W |-> W, EA |-> EA, L |-> ul, lie |-> lie /\ FLt("0.0", W)]
        fits == LET e == CatAt(c, ul) IN FClose(e[1], XF, "1.0E-6", "0.0") /\ FClose(e[2], ZF, "1.0E-6", FMul("1.0E-6", ul))
    IN /\ N("Start.length", i, ul, q.ul, "1.0E-12", "0.0")
       /\ IF FEq(XF, "0.0") \/ TooLong(W, EA, XF, ZF, ul, lie)
          THEN \A j \in 2..L.n : V("Start.straight", <<i, j>>, Chord(a, b, L.n, j), q.r[j], "1.0E-12", "1.0E-9")
          ELSE IF wit = <<>> \/ FLt(W, "0.0") THEN TRUE   \* nothing is said about buoyant lines
          ELSE IF ~fits THEN Say("Start.witness", i, <<XF, ZF>>, <<wit, CatAt(c, ul)>>)
          ELSE \A j \in 2..L.n : V("Start.catenary", <<i, j>>, CatNode(c, a, b, L.n, j), q.r[j], "0.0", FMul("2.0E-4", ul))

CPlace(o) ==
  /\ \A i \in 1..Len(m.points) : IF m.points[i].k # "free" THEN TRUE ELSE
       V("Start.point", i, m.points[i].r0, o.point[i].r, "1.0E-12", "1.0E-9")
  /\ \A i \in 1..Len(m.bodies) : IF m.bodies[i].k # "free" THEN TRUE ELSE
       /\ V("Start.body", i, Sub3(m.bodies[i].r0), Sub3(o.body[i].r), "1.0E-12", "1.0E-9")
       /\ V("Start.body", i, RotXYZ([j \in 1..3 |-> Deg2Rad(m.bodies[i].r0[3+j])]), BodyR(o.body[i]), "1.0E-9", "1.0E-9")
  /\ \A i \in 1..Len(m.rods) : IF m.rods[i].k \notin {"free", "pinned"} THEN TRUE ELSE
       /\ V("Start.rod", i, m.rods[i].a0, o.rod[i].r[1], "1.0E-12", "1.0E-9")
       /\ V("Start.rod", i, m.rods[i].b0, o.rod[i].r[m.rods[i].n + 1], "1.0E-9", "1.0E-9")

CRest(o) ==
  /\ \A i \in 1..Len(m.lines) : \A j \in 2..m.lines[i].n : V("Start.rest", <<"line", i, j>>, Z3, o.line[i].rd[j], "0.0", "1.0E-12")
  /\ \A i \in 1..Len(m.points) : IF m.points[i].k # "free" THEN TRUE ELSE V("Start.rest", <<"point", i>>, Z3, o.point[i].rd, "0.0", "1.0E-12")
  /\ \A i \in 1..Len(m.bodies) : IF m.bodies[i].k # "free" THEN TRUE ELSE V("Start.rest", <<"body", i>>, Z6, o.body[i].rd, "0.0", "1.0E-12")
  /\ \A i \in 1..Len(m.rods) : IF m.rods[i].k \notin {"free", "pinned"} THEN TRUE ELSE
       \A j \in {1, m.rods[i].n + 1} : V("Start.rest", <<"rod", i>>, Z3, o.rod[i].rd[j], "0.0", "1.0E-12")

(* ---------------------------- with relaxation -------------------------- *)
Same(name, p, q) ==
  /\ \A i \in 1..Len(m.lines) : \A j \in 1..(m.lines[i].n + 1) :
       /\ V(name, <<"line", i, j>>, p.line[i].r[j], q.line[i].r[j], "1.0E-9", "1.0E-9")
       /\ V(name, <<"line", i, j>>, p.line[i].rd[j], q.line[i].rd[j], "1.0E-9", "1.0E-8")
  /\ \A i \in 1..Len(m.points) :
       /\ V(name, <<"point", i>>, p.point[i].r, q.point[i].r, "1.0E-9", "1.0E-9")
       /\ V(name, <<"point", i>>, p.point[i].rd, q.point[i].rd, "1.0E-9", "1.0E-8")
  /\ \A i \in 1..Len(m.bodies) :
       /\ V(name, <<"body", i>>, p.body[i].r, q.body[i].r, "1.0E-9", "1.0E-8")
       /\ V(name, <<"body", i>>, p.body[i].rd, q.body[i].rd, "1.0E-9", "1.0E-8")
  /\ \A i \in 1..Len(m.rods) : \A j \in {1, m.rods[i].n + 1} :
       /\ V(name, <<"rod", i>>, p.rod[i].r[j], q.rod[i].r[j], "1.0E-9", "1.0E-8")
       /\ V(name, <<"rod", i>>, p.rod[i].rd[j], q.rod[i].rd[j], "1.0E-9", "1.0E-8")

Ref == SelectSeq(T, LAMBDA e : e.op \in {"init", "step"} /\ e.h = "r")   \* the first one is before any step
Tens == TLCEval([j \in 1..(Len(Ref) - 1) |-> [i \in 1..Len(m.lines) |-> VNorm(Ref[j + 1].o.line[i].ten[m.lines[i].n + 1])]])
CRelax(o) ==
  LET tens == Tens
      n == StopAt(tens, m.ic.sample, m.ic.tmax, m.ic.th)
  IN IF Doubtful(tens, m.ic.th) \/ n = 0 THEN TRUE
     ELSE IF n = -1 THEN Same("Start.norelax", Ref[1].o, o)
     ELSE Same("Start.relax", Ref[n + 1].o, o)

(* the instance "n" is the same system without relaxation *)
CBetter(o) ==
  LET ref == SelectSeq(T, LAMBDA e : e.op = "step" /\ e.h = "n") IN
  IF ref = <<>> THEN TRUE
  ELSE LET a == Residual(m, ref[1].o) b == Residual(m, o) IN
       IF FFinite(b) /\ FLe(b, FAdd("1.0E-3", FMul("1.1", a))) THEN TRUE ELSE Say("Start.static", 0, a, b)

Judge ==
  CASE ev.op = "crash" -> Say("Start.crash", ev.in, "a return code", ev.status)
    [] ev.op = "init" /\ ev.ret # 0 -> Eq("Start.ok", 0, IF m.ic.refuse THEN "error" ELSE "ok", "error")
    [] ev.op = "init" /\ m.ic.refuse -> Say("Start.ok", 0, "error", "ok")
    [] ev.op = "init" /\ ev.h = "a" /\ m.ic.kind = "none" -> CProfile(ev.o) /\ CPlace(ev.o) /\ CRest(ev.o)
    [] ev.op = "init" /\ ev.h = "a" /\ m.ic.kind = "dynamic" -> CRelax(ev.o)
    [] ev.op = "init" /\ ev.h = "a" /\ m.ic.kind = "static" -> CRest(ev.o)
    [] ev.op = "step" /\ ev.h = "a" /\ "o" \in DOMAIN ev -> CBetter(ev.o)
    [] ev.op = "step" /\ ev.h = "a" -> N("Start.time", 0, FAdd(ev.t, ev.dt), ev.tout, "1.0E-9", "1.0E-9")
    [] OTHER -> TRUE

Init == k \in 1..Len(Traces) /\ l = 2
Next == l <= Len(T) /\ Judge /\ l' = l + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Consumed == TLCGet("stats").distinct = Sum([j \in 1..Len(Traces) |-> Len(Traces[j])], 1)
=============================================================================
