------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Input files put together in Python.                                     *)
(***************************************************************************)
EXTENDS Generator, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, l, g
vars == <<k, l, g>>

T == Traces[k]
Say(name, i, want, got) == PrintT(<<"REJECT", k, l, name, i, ToString(want), ToString(got)>>)
Eq(name, i, want, got) == IF want = got THEN TRUE ELSE Say(name, i, want, got)
EqS(name, i, want, got) == IF ToString(want) = ToString(got) THEN TRUE ELSE Say(name, i, want, got)

(* angles were converted, everything else is as it was given *)
Place(b) == [b EXCEPT !.r0 = SubSeq(b.r0, 1, 3)]
Close(a, b) == \A i \in 4..6 : FLe(FAbs(FSub(a[i], b[i])), FMul("1.0E-12", FAdd("1.0", FAbs(a[i]))))

Judge(e) ==
  CASE e.op = "crash" -> Say("Gen.crash", e.in, "an answer", e.status)
    [] e.op = "pyload" -> TRUE
    [] e.op = "gen" /\ e.exc # "" -> Say("Gen.error", e.c, "no error", e.exc)
    [] e.op = "gen" /\ e.c = "get" -> EqS("Gen.get", e.f, Value(g, e.o, e.f), e.got)
    [] e.op = "gen" /\ e.c = "number" -> EqS("Gen.number", e.o, Number(g, e.o), e.got)
    [] e.op = "gen" /\ e.c = "create" ->
       LET f == TLCEval(Written(e.secs)) IN
       IF ~Accepted(f) THEN Say("Gen.file", "accepted", TRUE, FALSE)
       ELSE LET A == TLCEval(Meaning(FileOf(g))) B == TLCEval(Meaning(f)) IN
            /\ \A x \in DOMAIN A \ {"bodies"} : Eq("Gen.file", x, A[x], B[x])
            /\ Eq("Gen.file", "bodies", [i \in 1..Len(A.bodies) |-> Place(A.bodies[i])], [i \in 1..Len(B.bodies) |-> Place(B.bodies[i])])
            /\ \A i \in 1..Len(A.bodies) : i <= Len(B.bodies) =>
                 IF Close(A.bodies[i].r0, B.bodies[i].r0) THEN TRUE ELSE Say("Gen.file", "angles", A.bodies[i].r0, B.bodies[i].r0)
            /\ Eq("Gen.system", "coupled", NCoupled(A), e.ndof)
    [] OTHER -> TRUE

Init == k \in 1..Len(Traces) /\ l = 1 /\ g = Empty
Next ==
  /\ l <= Len(T)
  /\ Judge(T[l])
  /\ g' = IF T[l].op = "gen" THEN Do(g, T[l]) ELSE g
  /\ l' = l + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Consumed == TLCGet("stats").distinct = Sum([j \in 1..Len(Traces) |-> Len(Traces[j]) + 1], 1)
=============================================================================
