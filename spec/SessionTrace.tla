---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded executions checked against Session.  Every recorded call       *)
(* carries its abstract operation (field "abs").  seen remembers what was  *)
(* observed after each history; the same history must always be observed   *)
(* the same way, bit by bit (digests of everything the getters return).    *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, l, seen
tvars == <<S, n, last, k, l, seen>>
T == Traces[k]
ev == T[l]
Has(f) == f \in DOMAIN ev
Say(name, want, got) == PrintT(<<"REJECT", k, l, name, ToString(want), ToString(got)>>)
B(name, want, got) == IF want = got THEN TRUE ELSE Say(name, want, got)

Good == IF Has("made") THEN ev.made ELSE IF Has("found") THEN ev.found
        ELSE IF Has("rets") THEN \E j \in 1..Len(ev.rets) : ev.rets[j] = 0
        ELSE IF Has("ret") THEN ev.ret = 0 ELSE TRUE
Key(s, h, what) == <<what, Inst(s, h).w, Inst(s, h).hist>>
Note(f, key, v) == IF key \in DOMAIN f THEN f ELSE [x \in DOMAIN f \cup {key} |-> IF x = key THEN v ELSE f[x]]

(* the observations of this event, as <<key, digest>> *)
Facts(s) ==
  IF ev.op = "crash" \/ ~Has("abs") \/ ~Has("h") \/ ~Alive(s, ev.h) THEN {}
  ELSE (IF Has("dg") /\ Running(s, ev.h) THEN {<<Key(s, ev.h, "state"), ev.dg>>} ELSE {})
       \cup (IF Has("fdg") /\ ev.ret = 0 THEN {<<Key(s, ev.h, "force"), ev.fdg>>} ELSE {})
       \cup (IF Has("tdg") /\ ev.ret = 0 THEN {<<Key(s, ev.h, "time"), ev.tdg>>} ELSE {})
       \cup (IF Has("qdg") THEN {<<Key(s, ev.h, ev.qk), ev.qdg>>} ELSE {})

TInit == /\ k \in 1..Len(Traces) /\ l = 2 /\ seen = <<>> /\ n = 0 /\ last = <<>>
         /\ S = [inst |-> <<>>, file |-> <<>>]
RECURSIVE NoteAll(_, _)
NoteAll(f, fs) == IF fs = {} THEN f ELSE LET x == CHOOSE y \in fs : TRUE IN NoteAll(Note(f, x[1], x[2]), fs \ {x})

TNext ==
  /\ l <= Len(T)
  /\ l' = l + 1
  /\ UNCHANGED <<k, n, last>>
  /\ IF ev.op = "crash" THEN
       /\ Say("Session.crash", ev.in, ev.status)
       /\ UNCHANGED <<S, seen>>
     ELSE IF ~Has("abs") THEN UNCHANGED <<S, seen>>
     ELSE
       /\ IF "free" \in DOMAIN ev.abs THEN TRUE
          ELSE B("Session." \o ev.abs.o \o (IF Ok(S, ev.abs) THEN ".succeeds" ELSE ".refused"), Ok(S, ev.abs), Good)
       /\ S' = Do(S, ev.abs)
       /\ \A x \in Facts(S') :
            IF x[1] \in DOMAIN seen THEN B("Session.same." \o x[1][1], seen[x[1]], x[2]) ELSE TRUE
       /\ seen' = NoteAll(seen, Facts(S'))
TSpec == TInit /\ [][TNext]_tvars

RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumI(Tail(s))
Consumed == TLCGet("stats").distinct = SumI([j \in 1..Len(Traces) |-> Len(Traces[j])])
=============================================================================
