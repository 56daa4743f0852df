----------------------------- MODULE SessionGen -----------------------------
(* Behaviours of Session printed as JSON, to be replayed on the real code *)
EXTENDS Session, TLC, Json
VARIABLE log
CONSTANTS Quiet, Noisy,   \* operations kept rare / repeated freely
          Theme           \* which plans are drawn
VARIABLE plan
Lead == <<[o |-> "create", h |-> "a", w |-> "w1", good |-> TRUE],
          [o |-> "init", h |-> "a", lab |-> "init", good |-> TRUE],
          [o |-> "create", h |-> "b", w |-> "w1", good |-> TRUE],
          [o |-> "init", h |-> "b", lab |-> "init", good |-> TRUE]>>
(* A plan says which kinds of operation come at which place; without it a  *)
(* random walk seldom loads a snapshot where it matters.                    *)
AnyOp == {"create", "init", "step", "set", "obs", "nop", "misuse", "close", "save", "load", "serialize", "deserialize", "damage", "reboot"}
Mut == {"step", "set"}
St == {"step"}
Sv == {"save", "serialize"}
Ld == {"load", "deserialize"}
Mild == Mut \cup {"obs", "nop", "misuse", "save", "serialize"}
Rep(x, j) == [q \in 1..j |-> x]
Plans ==
  IF Theme = "snap" THEN
    { \* a new process takes over
      Rep(St, 1) \o Rep(Mut, 2) \o <<{"save"}>> \o Rep(Mild, 2) \o <<{"reboot"}, {"create"}, {"init"}, {"load"}, St, Mut, {"create"}, {"init"}, {"load"}, St>> \o Rep(Mild, 2),
      Rep(St, 3) \o <<{"save"}, {"reboot"}, {"create"}, {"init"}, {"load"}, St, St, {"save"}, Mut, Mut, {"load"}, St, {"save"}, {"reboot"}, {"create"}, {"init"}, {"load"}, St>>,
      \* another instance takes over
      Rep(St, 2) \o Rep(Mild, 2) \o <<Sv>> \o Rep(Mut, 3) \o <<Ld>> \o Rep(St, 2) \o <<Sv>> \o Rep(Mild, 2) \o <<Ld, St, Mut, Ld, St, Mild>>,
      Rep(Mut, 3) \o <<Sv, {"create"}, {"init"}, Ld, St, Mut, Sv, Mut, St, Ld, St, Mild, Mild, Ld, St, St>>,
      \* the same instance goes back
      Rep(St, 2) \o <<Sv, Mut, Mut, Ld, St, Mut, Mut, Ld, St, Sv, Mut, Mut, Mild, Mild, Ld, St, St>>,
      Rep(AnyOp, 20) }
  ELSE IF Theme = "damage" THEN
    { Rep(Mut, 2) \o <<{"save"}, Mut, {"damage"}, {"load"}, St, Mild, {"save"}, {"damage"}, {"load"}, Mut, St, {"save"}, Mut, {"load"}, St, {"damage"}, {"load"}, St>>,
      Rep(Mut, 2) \o <<{"save"}, {"save"}, {"damage"}, {"load"}, {"load"}, St, {"damage"}, {"load"}, St, {"reboot"}, {"create"}, {"init"}, {"load"}, {"load"}, St, {"obs"}, St>>,
      \* somebody else's snapshot
      <<{"create"}, {"init"}>> \o Rep(Mut, 3) \o <<{"save"}, {"save"}, {"load"}, {"load"}, {"load"}, Mut, Mut, {"load"}, {"load"}, St, St, St>>,
      Rep(AnyOp, 20) }
  ELSE {Rep(AnyOp, 20)}
(* loads worth making: something comes back, or something has to be refused *)
UsefulLoad(op) ==
  IF Theme = "snap" THEN Ok(S, op) /\ File(S, op.f).hist # Inst(S, op.h).hist
  ELSE IF Theme = "damage" THEN op.o = "load" => ~Ok(S, op) \/ File(S, op.f).hist # Inst(S, op.h).hist
  ELSE TRUE
RECURSIVE Run(_, _)
Run(s, q) == IF q = <<>> THEN s ELSE Run(Do(s, Head(q)), Tail(q))
GInit == S = Run([inst |-> <<>>, file |-> <<>>], Lead) /\ n = 4 /\ last = <<>> /\ log = Lead /\ plan \in Plans
Free == plan[1] = AnyOp
GNext == Next /\ log' = Append(log, last') /\ UNCHANGED plan
         /\ n - 3 <= Len(plan)
         /\ last'.o \in plan[n - 3]
         /\ (last'.o \in Ld => UsefulLoad(last'))
         /\ (Free /\ last'.o \in {"close", "reboot"} => n > 7)
         /\ (last'.o = "create" => n < MaxOps - 3)
         /\ (Len(log) > 4 /\ last'.o \in {"obs", "nop", "damage", "misuse"} \ Noisy => log[Len(log)].o # last'.o)
         /\ (Free /\ last'.o \in Quiet => Cardinality({j \in 1..Len(log) : log[j].o = last'.o}) < 2)
GSpec == GInit /\ [][GNext]_<<vars, log, plan>>
Emit == n = 4 + Len(plan) => PrintT(<<"BEH", ToJson([ops |-> log, ends |-> {<<S.inst[h].w, S.inst[h].hist>> : h \in {x \in DOMAIN S.inst : S.inst[x].ph = "run"}}])>>)
=============================================================================
