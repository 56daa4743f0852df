------------------------------- MODULE Legacy -------------------------------
(***************************************************************************)
(* The old interface: one instance per process, nobody holds its handle.   *)
(*                                                                         *)
(* It is a Session whose instance "v1" is replaced by every initialisation *)
(* that succeeds, kept by every one that fails, and gone after a close;    *)
(* everything else is what the same history gives through handles.         *)
(***************************************************************************)
EXTENDS Session

V1 == "v1"
Has1(s) == Running(s, V1)
V1Ops == {"v1init", "v1step", "v1close", "v1obs", "v1wave"}

LOk(s, op) ==
  CASE op.o = "v1init" -> op.good
    [] op.o \in {"v1step", "v1close", "v1obs", "v1wave"} -> Has1(s)
    [] OTHER -> Ok(s, op)

LDo(s, op) ==
  IF op.o \notin V1Ops THEN Do(s, op)
  ELSE IF ~LOk(s, op) THEN s
  ELSE CASE op.o = "v1init" -> PutI(s, V1, [ph |-> "run", w |-> op.w, hist |-> <<op.lab>>, t |-> 0])
         [] op.o = "v1step" -> Do(s, [o |-> "step", h |-> V1, lab |-> op.lab, n |-> 1])
         [] op.o = "v1close" -> Do(s, [o |-> "close", h |-> V1])
         [] OTHER -> s

-----------------------------------------------------------------------------
LOps ==
  {[o |-> "v1init", h |-> V1, w |-> w, lab |-> "init", good |-> g] : w \in Worlds, g \in BOOLEAN}
  \cup {[o |-> "v1step", h |-> V1, lab |-> s] : s \in Steps}
  \cup {[o |-> "v1close", h |-> V1], [o |-> "v1obs", h |-> V1]}
  \cup {[o |-> "create", h |-> h, w |-> w, good |-> TRUE] : h \in Handles, w \in Worlds}
  \cup {[o |-> "init", h |-> h, lab |-> "init", good |-> TRUE] : h \in Handles}
  \cup {[o |-> "step", h |-> h, lab |-> s, n |-> 1] : h \in Handles, s \in Steps}
  \cup {[o |-> k, h |-> h] : k \in {"obs", "close"}, h \in Handles}

LSensible(op) ==
  \/ op.o \in V1Ops
  \/ op.o = "create" /\ ~Alive(S, op.h)
  \/ op.o \notin V1Ops \cup {"create"} /\ Ok(S, op)

LInit == S = [inst |-> <<>>, file |-> <<>>] /\ n = 0 /\ last = <<>>
LNext == /\ n < MaxOps
         /\ \E op \in LOps :
              /\ LSensible(op)
              /\ op.o \in {"step", "v1step"} => Len(Inst(S, op.h).hist) < MaxHist
              /\ S' = LDo(S, op)
              /\ last' = op
              /\ n' = n + 1
LSpec == LInit /\ [][LNext]_vars

(* the singleton and the instances with handles do not know each other *)
Apart == [][IF last'.o \in V1Ops THEN \A h \in Handles : Inst(S', h) = Inst(S, h)
            ELSE Inst(S', V1) = Inst(S, V1)]_vars
(* an initialisation which fails costs nothing, one which succeeds starts afresh *)
Replaced == [][last'.o = "v1init" =>
                 IF last'.good THEN Inst(S', V1).hist = <<"init">> /\ Inst(S', V1).w = last'.w
                 ELSE S' = S]_vars
(* nothing happens to a system which is not there *)
Nothing == [][~Has1(S) /\ last'.o \in {"v1step", "v1close", "v1obs"} => S' = S]_vars
=============================================================================
