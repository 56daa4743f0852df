------------------------------ MODULE FormTrace ------------------------------
(***************************************************************************)
(* Two input files, loaded, initialised and stepped side by side: every    *)
(* call for "a" is followed by the same call for "b".  If the files have   *)
(* the same meaning, so have the answers.                                  *)
(***************************************************************************)
EXTENDS Forms, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, l
vars == <<k, l>>

T == Traces[k]
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
Eq(name, i, want, got) == IF want = got THEN TRUE ELSE Say(name, i, want, got)
Fields == {"made", "ret", "ndof", "counts", "tout", "f", "o", "exists"}
Parts(name, a, b) == \A x \in (DOMAIN a) \cap {"body", "rod", "point", "line", "scheme", "dt", "cfl"} :
  IF a[x] = b[x] THEN TRUE ELSE Say(name, l, x, a[x] = b[x])

Judge ==
  LET ev == T[l] IN
  IF ev.op = "forms" THEN
    (* the generator says so, the specification confirms *)
    LET A == TLCEval(Meaning(ev.a)) B == TLCEval(Meaning(ev.b)) IN
    \A x \in DOMAIN A : Eq("Meaning", 0, A[x], B[x])
  ELSE IF ev.op = "crash" THEN Say("Form.crash", ev.in, "a return code", ev.status)
  ELSE IF ev.h # "b" THEN TRUE
  ELSE LET pe == T[l - 1] IN
    /\ \A x \in (Fields \cap DOMAIN ev) \ {"o"} : Eq("Form." \o ev.op, x, pe[x], ev[x])
    /\ ev.op = "create" => Eq("Form.create", "made", TRUE, ev.made)
    /\ ev.op = "init" /\ T[1].sure => Eq("Form.init", "ret", 0, ev.ret)
    /\ "o" \in DOMAIN ev => Parts("Form." \o ev.op, pe.o, ev.o)
    (* the names of the columns are as they were asked for *)
    /\ ev.op = "readout" => Eq("Form.output", l, SubSeq(pe.rows, 2, Len(pe.rows)), SubSeq(ev.rows, 2, Len(ev.rows)))

Init == k \in 1..Len(Traces) /\ l = 1
Next == l <= Len(T) /\ Judge /\ l' = l + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Consumed == TLCGet("stats").distinct = Sum([j \in 1..Len(Traces) |-> Len(Traces[j]) + 1], 1)
=============================================================================
