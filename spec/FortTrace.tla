------------------------------ MODULE FortTrace ------------------------------
(***************************************************************************)
(* Sessions held in Fortran and, call by call, in C.                       *)
(***************************************************************************)
EXTENDS Fortran, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, l, open
vars == <<k, l, open>>

T == Traces[k]
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
Eq(name, i, want, got) == IF ToString(want) = ToString(got) THEN TRUE ELSE Say(name, i, want, got)

Judge(e) ==
  CASE e.op = "fload" -> IF e.link # "" THEN Say("Fort.link", "the module", "a library", e.link) ELSE \A x \in DOMAIN Constants : Eq("Fort.constant", x, Constants[x], e.consts[x])
    [] e.op = "fcreate" -> Eq("Fort.create", "Create", e.made, e.fort)
    [] e.op = "fcall" /\ ~open -> TRUE
    [] e.op = "fcall" /\ open ->
       LET f == e.f IN
       /\ Eq("Fort.procedure", f, TRUE, f \in Procedures)
       /\ Eq("Fort.code", f, e.code.c, e.code.f)
       /\ Writes(f) /\ e.code.c = 0 => Eq("Fort.answer", f, e.v.c, e.v.f)
       /\ Eq("Fort.effect", f, e.dg.c, e.dg.p)
       /\ Eq("Fort.printed", f, e.seen.c, e.seen.f)
       /\ f = "Save" => Eq("Fort.saved", f, e.code.c = 0, e.same)
    [] e.op = "pylogs" -> \A j \in 1..Len(e.in) : Eq("Fort.log", e.in[j].m, e.in[j].c, e.in[j].p)
    [] e.op = "crash" -> Say("Fort.crash", e.in, "an answer", e.status)
    [] OTHER -> TRUE

Init == k \in 1..Len(Traces) /\ l = 1 /\ open = FALSE
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     /\ Judge(e)
     /\ open' = CASE e.op = "fcreate" -> e.made /\ e.fort [] e.op = "fcall" /\ open /\ e.f = "Close" -> FALSE [] OTHER -> open
  /\ l' = l + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Consumed == TLCGet("stats").distinct = Sum([j \in 1..Len(Traces) |-> Len(Traces[j]) + 1], 1)
=============================================================================
