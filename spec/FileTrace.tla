------------------------------ MODULE FileTrace ------------------------------
(***************************************************************************)
(* Recorded attempts to create a system from a file, checked against       *)
(* InputFile.  A trace begins with the file; then the system is created,   *)
(* described, initialised and stepped as far as it goes, and finally a     *)
(* sound file is loaded in the same process.                               *)
(***************************************************************************)
EXTENDS InputFile, Json, IOUtils, Integers

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, l, ph   \* trace, event, "new" | "made" | "ready" | "gone" | "dead"
vars == <<k, l, ph>>

T == Traces[k]
f == T[1]
ev == T[l]
(* a file beside the input file breaks its rules *)
Spoilt == f.side.name # "none" /\ ~SideOk(f.side.name, f.side.x)
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
Eq(name, i, want, got) == IF want = got THEN TRUE ELSE Say(name, i, want, got)

BodyT == [coupled |-> -1, free |-> 0, fixed |-> 1, cpldpin |-> 2]
PointT == [coupled |-> -1, free |-> 0, fixed |-> 1]
RodT == [coupled |-> -2, cpldpin |-> -1, free |-> 0, pinned |-> 1, fixed |-> 2]

CDescribed(o) ==
  LET d == Described(f) IN
  /\ Eq("Model.bodies", 0, [i \in 1..Len(d.bodies) |-> <<d.bodies[i].id, BodyT[d.bodies[i].k]>>],
        [i \in 1..Len(o.body) |-> <<o.body[i].id, o.body[i].type>>])
  /\ Eq("Model.rods", 0, [i \in 1..Len(d.rods) |-> <<d.rods[i].id, RodT[d.rods[i].k], d.rods[i].n>>],
        [i \in 1..Len(o.rod) |-> <<o.rod[i].id, o.rod[i].type, o.rod[i].n>>])
  /\ Eq("Model.points", 0, [i \in 1..Len(d.points) |-> <<d.points[i].id, PointT[d.points[i].k], d.points[i].att>>],
        [i \in 1..Len(o.point) |-> <<o.point[i].id, o.point[i].type, o.point[i].att>>])
  /\ Eq("Model.lines", 0, [i \in 1..Len(d.lines) |-> <<d.lines[i].id, d.lines[i].n>>],
        [i \in 1..Len(o.line) |-> <<o.line[i].id, o.line[i].n>>])

Judge ==
  CASE ev.op = "crash" -> Say("File.crash", ev.in, "a return code", ev.status)
    [] ev.op = "create" /\ ev.h = "a" ->
         IF Accepted(f) /\ f.side.name # "none" /\ ~f.sound THEN TRUE
         ELSE IF Accepted(f) THEN Eq("File.accepted", 0, TRUE, ev.made) ELSE Eq("File.refused", 0, FALSE, ev.made)
    [] ev.op = "create" /\ ev.h = "b" -> Eq("File.after", 0, TRUE, ev.made)
    [] ev.op = "describe" /\ ev.h = "a" /\ ph = "made" /\ Accepted(f) -> CDescribed(ev.o)
    [] ev.op = "init" /\ ev.h = "a" /\ ph = "made" ->
         IF NoStart(f) \/ Spoilt THEN (IF ev.ret = 0 THEN Say("File.init", 0, "an error", ev.ret) ELSE TRUE)
         ELSE IF f.sound THEN Eq("File.init", 0, 0, ev.ret) ELSE TRUE
    [] ev.op = "init" /\ ev.h = "b" -> Eq("File.after", 1, 0, ev.ret)
    [] ev.op = "step" /\ ev.h = "b" -> Eq("File.after", 2, 0, ev.ret)
    [] ev.op = "readout" /\ ph = "ready" ->
         IF ~ev.exists \/ ev.rows = <<>> THEN Say("File.columns", 0, "a header", "none")
         ELSE Eq("File.columns", 0, Columns(f), ev.rows[1])
    [] OTHER -> TRUE

Step ==
  CASE ev.op = "crash" -> "dead"
    [] ev.op = "create" /\ ev.h = "a" -> IF ev.made THEN "made" ELSE "gone"
    [] ev.op = "init" /\ ev.h = "a" /\ ph = "made" -> IF ev.ret = 0 THEN "ready" ELSE "made"
    [] OTHER -> ph

Init == k \in 1..Len(Traces) /\ l = 2 /\ ph = "new"
Next == l <= Len(T) /\ Judge /\ ph' = Step /\ l' = l + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Consumed == TLCGet("stats").distinct = Sum([j \in 1..Len(Traces) |-> Len(Traces[j])], 1)
=============================================================================
