--------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* Where a message goes.  Every system has a log of its own: a threshold   *)
(* for the terminal, a threshold for the file, and at most one file.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

DBG == 0
MSG == 1
WRN == 2
ERR == 3
NONE == 4096

(* the writeLog option of the input file, "no" if it is not there *)
FileLevel(w) == CASE w = "no" -> DBG [] w = "-1" -> NONE [] w = "0" -> NONE [] w = "1" -> WRN [] w = "2" -> MSG [] OTHER -> DBG
OwnFile(w) == w \notin {"no", "-1", "0"}
Fresh(w, own) == [v |-> MSG, fl |-> FileLevel(w), file |-> IF OwnFile(w) THEN own ELSE ""]

Terminal(s, lv) == IF lv < s.v THEN "none" ELSE IF lv >= ERR THEN "err" ELSE "out"
Filed(s, lv) == s.file # "" /\ lv >= s.fl
(* nothing may come out *)
Mute(s) == s.v = NONE

---------------------------------------------------------------------------
(* Two systems, a few messages: what the rules above add up to.            *)
CONSTANTS Sys, Files, Depth
VARIABLES log, held, term, n
vars == <<log, held, term, n>>

Levels == {DBG, WRN, ERR}
Init == /\ \E w \in [Sys -> {"no", "1"}] : log = [s \in Sys |-> [Fresh(w[s], "") EXCEPT !.file = ""]]
        /\ held = [f \in Files |-> <<>>] /\ term = <<>> /\ n = 0
SetV(s, x) == log' = [log EXCEPT ![s].v = x] /\ UNCHANGED <<held, term>>
SetL(s, x) == log' = [log EXCEPT ![s].fl = x] /\ UNCHANGED <<held, term>>
SetF(s, f) == /\ \A o \in Sys \ {s} : log[o].file # f
              /\ log' = [log EXCEPT ![s].file = f] /\ held' = [held EXCEPT ![f] = <<>>] /\ UNCHANGED term
Say(s, lv) == /\ held' = IF Filed(log[s], lv) THEN [held EXCEPT ![log[s].file] = Append(@, [from |-> s, lv |-> lv, n |-> n, fl |-> log[s].fl])] ELSE held
              /\ term' = IF Terminal(log[s], lv) = "none" THEN term ELSE Append(term, [from |-> s, lv |-> lv, n |-> n, v |-> log[s].v])
              /\ UNCHANGED log
Next == /\ n < Depth /\ n' = n + 1
        /\ \E s \in Sys : \/ \E x \in Levels \cup {NONE} : SetV(s, x) \/ SetL(s, x)
                          \/ \E f \in Files : SetF(s, f)
                          \/ \E lv \in Levels : Say(s, lv)
Spec == Init /\ [][Next]_vars

(* a threshold is never crossed from below, and what is said is kept in order *)
Thresholds == /\ \A f \in Files : \A i \in 1..Len(held[f]) : held[f][i].lv >= held[f][i].fl
              /\ \A i \in 1..Len(term) : term[i].lv >= term[i].v
Ordered == /\ \A f \in Files : \A i, j \in 1..Len(held[f]) : i < j => held[f][i].n < held[f][j].n
           /\ \A i, j \in 1..Len(term) : i < j => term[i].n < term[j].n
(* a file holds the messages of one system *)
OneVoice == \A f \in Files : Cardinality({held[f][i].from : i \in 1..Len(held[f])}) <= 1
=============================================================================
