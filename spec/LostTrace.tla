------------------------------ MODULE LostTrace ------------------------------
(* Recorded executions of systems driven to divergence, checked against Lost *)
EXTENDS Lost, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, l
T == Traces[k]
ev == T[l]
Say(name, want, got) == PrintT(<<"REJECT", k, l, name, ToString(want), ToString(got)>>)
B(name, ok, want, got) == IF ok THEN TRUE ELSE Say(name, want, got)
(* nodes of lines and rods, points and bodies: [nan |-> is it nowhere, ret |-> what the getter said, "any" for points and bodies] *)
LostNow == \E j \in 1..Len(ev.where) : ev.where[j].nan
Answers == \A j \in 1..Len(ev.where) :
  IF ev.where[j].ret = "any" THEN TRUE ELSE B("Lost.getter", (ev.where[j].ret = "nan") = ev.where[j].nan /\ ev.where[j].ret \in {"ok", "nan"}, ev.where[j].nan, ev.where[j].ret)
TInit == k \in 1..Len(Traces) /\ l = 2 /\ Init
TNext ==
  /\ l <= Len(T)
  /\ l' = l + 1
  /\ UNCHANGED k
  /\ CASE ev.op = "crash" -> Say("Lost.crash", ev.in, ev.status) /\ UNCHANGED <<st, code>>
       [] ev.op \in {"init", "step"} ->
            /\ Answers
            /\ B("Lost.step", MayReturn(st, LostNow, ev.err), <<st, LostNow>>, ev.err)
            /\ B("Lost.forever", st = "lost" => LostNow, "lost", "fine")
            /\ st' = After(st, LostNow)
            /\ code' = ev.err
       [] OTHER -> UNCHANGED <<st, code>>
TSpec == TInit /\ [][TNext]_<<st, code, k, l>>
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumI(Tail(s))
Consumed == TLCGet("stats").distinct = SumI([j \in 1..Len(Traces) |-> Len(Traces[j])])
=============================================================================
