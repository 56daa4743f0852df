------------------------------ MODULE LegacyGen ------------------------------
(* Behaviours of Legacy printed as JSON, to be replayed on the real code *)
EXTENDS Legacy, TLC, Json
VARIABLE log, plan
All == {"v1init", "v1step", "v1close", "v1obs", "create", "init", "step", "obs", "close"}
Rep(x, j) == [q \in 1..j |-> x]
Up == <<{"v1init"}>>
Go == {"v1step"}
Plans == {
  \* a whole life, with somebody else's in between
  Up \o Rep(Go, 2) \o Rep(All, 6) \o <<Go, {"v1obs"}, {"v1close"}, {"v1step", "v1obs", "v1close"}>> \o Up \o Rep(Go, 2) \o <<{"v1obs"}>>,
  \* calls before there is anything
  <<{"v1step"}, {"v1close"}, {"v1obs"}>> \o Up \o Rep(Go, 3) \o <<{"v1obs"}, {"v1close"}, {"v1close"}, {"v1step"}, {"v1obs"}>> \o Up \o <<Go, {"v1obs"}>>,
  \* one replaced by another
  Up \o Rep(Go, 2) \o Up \o <<Go>> \o Up \o Rep(Go, 2) \o <<{"v1obs"}>> \o Up \o <<{"v1obs"}, Go, {"v1obs"}>>,
  <<{"create"}, {"init"}>> \o Up \o <<Go, {"step"}, Go, {"step"}, {"v1obs"}, {"v1close"}, {"step"}, {"obs"}>> \o Up \o <<Go, {"step"}, {"v1obs"}, {"close"}, Go, {"v1obs"}>>,
  Rep(All, 18) }
Bad == Cardinality({j \in DOMAIN log : log[j].o = "v1init" /\ ~log[j].good})
GInit == LInit /\ log = <<>> /\ plan \in Plans
GNext == /\ n < Len(plan)
         /\ LNext
         /\ last'.o \in plan[n + 1]
         /\ (last'.o = "v1init" /\ ~last'.good => Bad < 2)
         /\ (last'.o = "v1init" /\ ~last'.good => n > 0)
         /\ (plan[n + 1] = All /\ log # <<>> /\ last'.o \in {"v1obs", "obs", "v1close"} => log[Len(log)].o # last'.o)
         /\ log' = Append(log, last')
         /\ UNCHANGED plan
GSpec == GInit /\ [][GNext]_<<vars, log, plan>>
Emit == n = Len(plan) => PrintT(<<"BEH", ToJson([ops |-> log])>>)
=============================================================================
