-------------------------------- MODULE Lost --------------------------------
(***************************************************************************)
(* Simulations which get lost.  A body, point or a node of a line or rod   *)
(* at no place at all (NaN) is lost for good: every later step reports it, *)
(* and whoever asks for the place of such a node is told so.               *)
(* A step may itself be the one which loses it, then either that step or   *)
(* the next one reports it.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* life of a system: "fine", "lost" *)
After(st, lostNow) == IF lostNow THEN "lost" ELSE st

(* may a step which begins in st and ends with the nodes lost or not return code c? *)
MayReturn(st, lostNow, c) ==
  IF st = "lost" THEN c = "nan"
  ELSE IF lostNow THEN c \in {"ok", "nan"}
  ELSE c = "ok"

-----------------------------------------------------------------------------
VARIABLES st, code
Init == st = "fine" /\ code = "ok"
Step(lostNow) == /\ \E c \in {"ok", "nan", "other"} : MayReturn(st, lostNow, c) /\ code' = c
                 /\ (st = "lost" => lostNow)      \* nothing brings it back
                 /\ st' = After(st, lostNow)
Next == \E b \in BOOLEAN : Step(b)
Spec == Init /\ [][Next]_<<st, code>>
(* nobody goes on with a lost simulation unaware *)
Aware == [][st = "lost" => code' = "nan"]_<<st, code>>
NoFalseAlarm == [][st' = "fine" => code' = "ok"]_<<st, code>>
=============================================================================
