------------------------------ MODULE LogTrace -------------------------------
(***************************************************************************)
(* Recorded sessions against Log.  sys: the settings of every open system; *)
(* held: what the files have to hold; lost: files whose system was asked   *)
(* for another one that cannot be opened (later messages may or may not    *)
(* still go there).                                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils, SequencesExt

L == INSTANCE Log WITH Sys <- {}, Files <- {}, Depth <- 0, log <- 0, held <- 0, term <- 0, n <- 0

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, l, sys, held, lost, silent
vars == <<k, l, sys, held, lost, silent>>

T == Traces[k]
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
Eq(name, i, want, got) == IF ToString(want) = ToString(got) THEN TRUE ELSE Say(name, i, want, got)
Has(h) == h \in DOMAIN sys
InUse(p) == \E h \in DOMAIN sys : sys[h].file = p
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]
None == [z \in {} |-> 0]
(* the messages of w are in g, in order *)
Within(w, g) == SelectSeq(g, LAMBDA x : \E i \in 1..Len(w) : w[i] = x) = w

File(p, e) ==
  LET w == held[p]
      g == e.files[p].msgs
  IN /\ Eq("Log.there", p, TRUE, e.files[p].there)
     /\ CASE p \in lost -> IF Within(w, g) THEN TRUE ELSE Say("Log.file", p, w, g)
          [] InUse(p) -> IF IsPrefix(g, w) THEN TRUE ELSE Say("Log.file", p, w, g)
          [] OTHER -> Eq("Log.file", p, w, g)
     /\ p \in silent => Eq("Log.silent", p, 0, e.files[p].size)

Judge(e) ==
  CASE e.op = "lcreate" -> Eq("Log.create", e.h, TRUE, e.made) /\ Eq("Log.own", e.h, L!OwnFile(e.w), e.own)
    [] e.op = "llook" -> \A p \in DOMAIN e.files : IF p \in DOMAIN held THEN File(p, e) ELSE Eq("Log.there", p, FALSE, e.files[p].there)
    [] e.op = "crash" -> Say("Log.crash", e.in, "an answer", e.status)
    [] e.op = "llog" /\ Has(e.h) ->
       LET to == L!Terminal(sys[e.h], e.v) IN
       /\ Eq("Log.code", "Log", 0, e.ret)
       /\ Eq("Log.stdout", e.msg, IF to = "out" THEN <<e.msg>> ELSE <<>>, e.out)
       /\ Eq("Log.stderr", e.msg, IF to = "err" THEN <<e.msg>> ELSE <<>>, e.serr)
       /\ IF to = "none" THEN Eq("Log.mute", "Log", <<0, 0>>, <<e.nout, e.nerr>>) ELSE TRUE
    [] e.op = "lfile" /\ Has(e.h) -> IF e.good THEN Eq("Log.code", "SetLogFile", 0, e.ret) ELSE Eq("Log.code", "SetLogFile", -2, e.ret)
    [] e.op \in {"lverb", "llevel"} /\ Has(e.h) -> Eq("Log.code", e.op, 0, e.ret)
    [] e.op \in {"linit", "lstep", "lsave", "lclose"} /\ Has(e.h) ->
       /\ Eq("Log.code", e.op, 0, e.ret)
       /\ IF L!Mute(sys[e.h]) THEN Eq("Log.mute", e.op, <<0, 0>>, <<e.nout, e.nerr>>) ELSE TRUE
       /\ Eq("Log.again", e.op, <<>>, e.out \o e.serr)
    [] OTHER -> TRUE

Init == k \in 1..Len(Traces) /\ l = 1 /\ sys = None /\ held = None /\ lost = {} /\ silent = {}
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l]
         on == "h" \in DOMAIN e /\ Has(e.h)
     IN
     /\ Judge(e)
     /\ sys' = CASE e.op = "lcreate" /\ e.made -> Put(sys, e.h, L!Fresh(e.w, e.own_path))
                 [] e.op = "lverb" /\ on -> [sys EXCEPT ![e.h].v = e.v]
                 [] e.op = "llevel" /\ on -> [sys EXCEPT ![e.h].fl = e.v]
                 [] e.op = "lfile" /\ on -> [sys EXCEPT ![e.h].file = IF e.good THEN e.path ELSE ""]
                 [] e.op = "lclose" /\ on -> Drop(sys, e.h)
                 [] OTHER -> sys
     /\ held' = CASE e.op = "lcreate" /\ e.made /\ L!OwnFile(e.w) -> Put(held, e.own_path, <<>>)
                  [] e.op = "lfile" /\ on /\ e.good -> Put(held, e.path, <<>>)
                  [] e.op = "llog" /\ on /\ L!Filed(sys[e.h], e.v) -> [held EXCEPT ![sys[e.h].file] = Append(@, e.msg)]
                  [] OTHER -> held
     /\ lost' = IF e.op = "lfile" /\ on /\ ~e.good THEN lost \cup {sys[e.h].file}
                ELSE IF e.op = "lfile" /\ on /\ e.good THEN lost \ {e.path} ELSE lost
     (* files opened while nothing at all was to go there *)
     /\ silent' = CASE e.op = "lfile" /\ on /\ e.good -> IF sys[e.h].fl = L!NONE THEN silent \cup {e.path} ELSE silent \ {e.path}
                    [] e.op = "llevel" /\ on -> IF e.v = L!NONE THEN silent ELSE silent \ ({sys[e.h].file} \cup lost)
                    [] OTHER -> silent
  /\ l' = l + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Consumed == TLCGet("stats").distinct = Sum([j \in 1..Len(Traces) |-> Len(Traces[j]) + 1], 1)
=============================================================================
