------------------------------ MODULE WrapTrace ------------------------------
(***************************************************************************)
(* Sessions held in Python and, call by call, in C.  last is how the       *)
(* systems looked when both were last looked at.                           *)
(***************************************************************************)
EXTENDS Wrapper, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, l, last, open
vars == <<k, l, last, open>>

T == Traces[k]
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
Eq(name, i, want, got) == IF want = got THEN TRUE ELSE Say(name, i, want, got)
(* any two values, of whatever kinds *)
Same(a, b) == ToString(a) = ToString(b)
Fits(want, p) == p.exc = want.exc /\ (want.exc # "" \/ Same(p.v, want.v))
Reply(name, f, want, p) ==
  IF p.exc = want.exc /\ (want.exc # "" \/ Same(p.v, want.v)) THEN TRUE
  ELSE Say(name, f, IF want.exc # "" THEN want.exc ELSE want.v, IF p.exc # "" THEN p.exc ELSE p.v)
Seen(e) == e.dg.p # "not looked at"

Judge(e) ==
  CASE e.op = "pyload" -> \A x \in DOMAIN Constants : IF Same(Constants[x], e.consts[x]) THEN TRUE ELSE Say("Py.constant", x, Constants[x], e.consts[x])
    [] e.op = "pycreate" -> IF e.made THEN Reply("Py.create", "Create", Give([handle |-> "system", id |-> 0]), e.py)
                            ELSE Reply("Py.create", "Create", Raise("RuntimeError"), e.py)
    [] e.op = "call" /\ ~open -> TRUE
    [] e.op = "call" /\ open ->
       /\ Eq("Py.function", e.f, TRUE, e.f \in Functions)
       /\ IF e.onlypy
          THEN /\ Reply("Py.refuse", e.f, Raise(Refusal(e.shape)), e.py)
               /\ Seen(e) => Eq("Py.untouched", e.f, last, e.dg.p)
          ELSE /\ Eq("Py.name", e.f, CName(e.f), e.c.fn)
               /\ IF e.f \in Oks /\ e.c.ret = 0 /\ Fits(Give(0), e.py) THEN TRUE
                  ELSE Reply("Py.answer", e.f, Answer(e.f, e.c), e.py)
       /\ Eq("Py.effect", e.f, e.dg.c, e.dg.p)
       /\ e.f = "Log" => IF Same(e.seen.c, e.seen.p) THEN TRUE ELSE Say("Py.printed", e.f, e.seen.c, e.seen.p)
       /\ e.f = "Save" => Eq("Py.saved", e.f, e.c.ret = 0, e.same)
    [] e.op = "pylogs" -> \A j \in 1..Len(e.in) : Eq("Py.log", e.in[j].m, e.in[j].c, e.in[j].p)
    [] e.op = "crash" -> Say("Py.crash", e.in, "an answer", e.status)
    [] OTHER -> TRUE

Init == k \in 1..Len(Traces) /\ l = 1 /\ last = "none" /\ open = FALSE
Next ==
  /\ l <= Len(T)
  /\ LET e == T[l] IN
     /\ Judge(e)
     /\ open' = CASE e.op = "pycreate" -> e.made /\ e.py.exc = "" [] e.op = "call" /\ e.f = "Close" -> FALSE [] OTHER -> open
     /\ last' = IF e.op = "call" /\ open /\ Seen(e) THEN e.dg.c ELSE last
  /\ l' = l + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Consumed == TLCGet("stats").distinct = Sum([j \in 1..Len(Traces) |-> Len(Traces[j]) + 1], 1)
=============================================================================
