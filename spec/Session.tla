------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Life cycle of MoorDyn instances as seen through the API.                *)
(*                                                                         *)
(* What an instance will answer to any later call is determined by its     *)
(* input file and by the sequence of state changing calls it has received  *)
(* (its history), and by nothing else: not by other instances, not by      *)
(* queries, not by calls which were refused, not by the process it lives   *)
(* in.  A snapshot carries the history of the moment it was taken.         *)
(*                                                                         *)
(* S.inst : handle -> [ph, w, hist, t]                                     *)
(*    ph  "none" | "made" | "run"       w  the input file                  *)
(*    hist sequence of labels of state changing calls (Init included)      *)
(*    t   number of ticks simulated                                        *)
(* S.file : snapshot name -> [st, w, hist, t]  st "absent"|"good"|"bad"    *)
(*                                                                         *)
(* An operation is a record; Do(S, op) gives the state after it and Ok(S,  *)
(* op) whether it has to succeed.  Both are shared by the exhaustive model *)
(* below and by the trace specification.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [ph |-> "none", w |-> "", hist |-> <<>>, t |-> 0]
Absent == [st |-> "absent", w |-> "", hist |-> <<>>, t |-> 0]

Inst(S, h) == IF h \in DOMAIN S.inst THEN S.inst[h] ELSE None
File(S, f) == IF f \in DOMAIN S.file THEN S.file[f] ELSE Absent
PutI(S, h, v) == [S EXCEPT !.inst = [x \in DOMAIN @ \cup {h} |-> IF x = h THEN v ELSE @[x]]]
PutF(S, f, v) == [S EXCEPT !.file = [x \in DOMAIN @ \cup {f} |-> IF x = f THEN v ELSE @[x]]]

Alive(S, h) == Inst(S, h).ph # "none"
Running(S, h) == Inst(S, h).ph = "run"

(* "step" with a positive time, "set" of a line or solver parameter *)
Mutators == {"step", "set"}
(* calls which may never change what an instance answers later *)
Observers == {"obs", "save", "serialize", "query", "nop", "misuse"}

Ok(S, op) ==
  CASE op.o = "create" -> op.good
    [] op.o = "init" -> Inst(S, op.h).ph = "made" /\ op.good
    [] op.o \in {"step", "set", "obs", "save", "serialize", "query"} -> Running(S, op.h)
    [] op.o = "nop" -> Running(S, op.h)
    [] op.o = "misuse" -> FALSE
    [] op.o \in {"load", "deserialize"} ->
         /\ Running(S, op.h)
         /\ File(S, op.f).st = "good"
         /\ File(S, op.f).w = Inst(S, op.h).w
    [] op.o = "close" -> Alive(S, op.h)
    [] OTHER -> TRUE

Do(S, op) ==
  IF op.o = "damage" THEN PutF(S, op.f, [File(S, op.f) EXCEPT !.st = "bad"])
  ELSE IF op.o = "copyfile" THEN PutF(S, op.g, File(S, op.f))
  ELSE IF op.o = "reboot" THEN    \* the process ends: instances and buffers go, files stay
    [inst |-> <<>>, file |-> [f \in {x \in DOMAIN S.file : S.file[x].disk} |-> S.file[f]]]
  ELSE IF ~Ok(S, op) THEN S
  ELSE LET i == Inst(S, op.h) IN
  CASE op.o = "create" -> PutI(S, op.h, [ph |-> "made", w |-> op.w, hist |-> <<>>, t |-> 0])
    [] op.o = "init" -> PutI(S, op.h, [i EXCEPT !.ph = "run", !.hist = <<op.lab>>, !.t = 0])
    [] op.o = "step" -> PutI(S, op.h, [i EXCEPT !.hist = Append(@, op.lab), !.t = @ + op.n])
    [] op.o = "set" -> PutI(S, op.h, [i EXCEPT !.hist = Append(@, op.lab)])
    [] op.o \in {"save", "serialize"} ->
         PutF(S, op.f, [st |-> "good", w |-> i.w, hist |-> i.hist, t |-> i.t, disk |-> op.o = "save"])
    [] op.o \in {"load", "deserialize"} ->
         PutI(S, op.h, [i EXCEPT !.hist = File(S, op.f).hist, !.t = File(S, op.f).t])
    [] op.o = "close" -> PutI(S, op.h, None)
    [] OTHER -> S

-----------------------------------------------------------------------------
(* The exhaustive model: every interleaving of a few calls *)
CONSTANTS Handles, Files, Bufs, Worlds, Steps, Sets, MaxOps, MaxHist

VARIABLES S, n, last
vars == <<S, n, last>>

Ops ==
  {[o |-> "create", h |-> h, w |-> w, good |-> TRUE] : h \in Handles, w \in Worlds}
  \cup {[o |-> "init", h |-> h, lab |-> "init", good |-> TRUE] : h \in Handles}
  \cup {[o |-> "step", h |-> h, lab |-> s, n |-> 1] : h \in Handles, s \in Steps}
  \cup {[o |-> "set", h |-> h, lab |-> s] : h \in Handles, s \in Sets}
  \cup {[o |-> k, h |-> h] : k \in {"obs", "nop", "misuse", "close"}, h \in Handles}
  \cup {[o |-> k, h |-> h, f |-> f] : k \in {"save", "load"}, h \in Handles, f \in Files}
  \cup {[o |-> k, h |-> h, f |-> f] : k \in {"serialize", "deserialize"}, h \in Handles, f \in Bufs}
  \cup {[o |-> "damage", f |-> f] : f \in Files}
  \cup {[o |-> "reboot"]}

(* calls worth making in a state: those which have to succeed, misuse, and *)
(* loads of bad or foreign snapshots *)
Sensible(op) ==
  \/ op.o = "reboot" /\ \E f \in DOMAIN S.file : S.file[f].st = "good" /\ \E h \in DOMAIN S.inst : TRUE
  \/ op.o = "damage" /\ File(S, op.f).st = "good"
  \/ op.o = "create" /\ ~Alive(S, op.h)
  \/ op.o = "misuse" /\ Running(S, op.h)
  \/ op.o = "load" /\ Running(S, op.h) /\ File(S, op.f).st # "absent"
  \* (the in-memory form carries no header, it can only be given back to its own kind)
  \/ op.o \notin {"reboot", "damage", "create", "misuse", "load"} /\ Ok(S, op)

Init == S = [inst |-> <<>>, file |-> <<>>] /\ n = 0 /\ last = <<>>
Next == /\ n < MaxOps
        /\ \E op \in Ops :
             /\ Sensible(op)
             /\ op.o \in Mutators => Len(Inst(S, op.h).hist) < MaxHist
             /\ S' = Do(S, op)
             /\ last' = op
             /\ n' = n + 1
Spec == Init /\ [][Next]_vars
View == <<S, n>>

-----------------------------------------------------------------------------
TypeOK ==
  /\ \A h \in DOMAIN S.inst : S.inst[h].ph \in {"none", "made", "run"}
  /\ \A f \in DOMAIN S.file : S.file[f].st \in {"good", "bad"}
(* no call disturbs an instance it was not addressed to *)
Isolation == [][last'.o # "reboot" => \A h \in Handles : ("h" \in DOMAIN last' /\ last'.h = h) \/ Inst(S', h) = Inst(S, h)]_vars
(* queries, refused calls and calls without effect leave every instance alone *)
Purity == [][(last'.o \in Observers \/ ~Ok(S, last')) /\ last'.o # "reboot" => S'.inst = S.inst]_vars
(* loading gives back exactly what was saved *)
Restores == [][last'.o \in {"load", "deserialize"} /\ Ok(S, last') =>
                 /\ Inst(S', last'.h).hist = File(S, last'.f).hist
                 /\ Inst(S', last'.h).t = File(S, last'.f).t]_vars
(* damaged or foreign snapshots are refused *)
RefuseBad == [][last'.o = "load" /\ (File(S, last'.f).st = "bad" \/ File(S, last'.f).w # Inst(S, last'.h).w)
                  => S' = S]_vars
(* snapshots are values: nothing done to an instance alters one *)
FilesStay == [][\A f \in DOMAIN S.file : last'.o \in {"save", "serialize", "damage", "reboot"} \/ S'.file[f] = S.file[f]]_vars
(* time only moves forward except through a load or a new life *)
Clock == [][last'.o \notin {"load", "deserialize", "create", "init", "close", "reboot"} =>
              \A h \in Handles : Inst(S', h).t >= Inst(S, h).t]_vars
TimeIsSteps == \A h \in DOMAIN S.inst :
   S.inst[h].t = Cardinality({j \in DOMAIN S.inst[h].hist : S.inst[h].hist[j] \in Steps})
=============================================================================
