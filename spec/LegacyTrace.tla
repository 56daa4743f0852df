----------------------------- MODULE LegacyTrace -----------------------------
(* Recorded executions checked against Legacy: what a history shows through  *)
(* the old interface and through handles is the same, bit by bit.            *)
EXTENDS Legacy, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, l, seen
T == Traces[k]
ev == T[l]
Has(f) == f \in DOMAIN ev
Say(name, want, got) == PrintT(<<"REJECT", k, l, name, ToString(want), ToString(got)>>)
B(name, want, got) == IF want = got THEN TRUE ELSE Say(name, want, got)
Good == IF Has("made") THEN ev.made ELSE IF Has("ret") THEN ev.ret = 0 ELSE TRUE

Key(s, what) == <<what, Inst(s, ev.h).w, Inst(s, ev.h).hist>>
Facts(s) == IF ~Has("h") \/ ~Running(s, ev.h) THEN {}
            ELSE {<<Key(s, f), ev.views[f]>> : f \in (IF Has("views") /\ Good THEN DOMAIN ev.views ELSE {})}
Note(f, fs) == [x \in DOMAIN f \cup {y[1] : y \in fs} |->
                  IF x \in DOMAIN f THEN f[x] ELSE (CHOOSE y \in fs : y[1] = x)[2]]

TInit == k \in 1..Len(Traces) /\ l = 2 /\ seen = <<>> /\ n = 0 /\ last = <<>> /\ S = [inst |-> <<>>, file |-> <<>>]
TNext ==
  /\ l <= Len(T)
  /\ l' = l + 1
  /\ UNCHANGED <<k, n, last>>
  /\ IF ev.op = "crash" THEN Say("Legacy.crash", ev.in, ev.status) /\ UNCHANGED <<S, seen>>
     ELSE IF ~Has("abs") THEN UNCHANGED <<S, seen>>
     ELSE
       /\ B("Legacy." \o ev.abs.o \o (IF LOk(S, ev.abs) THEN ".succeeds" ELSE ".refused"), LOk(S, ev.abs), Good)
       \* a refused call writes nothing
       /\ IF Has("touched") /\ ~LOk(S, ev.abs) THEN B("Legacy.touched", FALSE, ev.touched) ELSE TRUE
       \* requests for what does not exist are refused whatever the state
       /\ IF Has("bogus") THEN B("Legacy.bogus", TRUE, ev.bogus) ELSE TRUE
       /\ S' = LDo(S, ev.abs)
       /\ \A x \in Facts(S') :
            IF x[1] \in DOMAIN seen THEN B("Legacy.same." \o x[1][1], seen[x[1]], x[2]) ELSE TRUE
       /\ seen' = Note(seen, Facts(S'))
TSpec == TInit /\ [][TNext]_<<S, n, last, k, l, seen>>
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumI(Tail(s))
Consumed == TLCGet("stats").distinct = SumI([j \in 1..Len(Traces) |-> Len(Traces[j])])
=============================================================================
