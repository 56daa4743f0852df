------------------------------ MODULE Generator ------------------------------
(***************************************************************************)
(* The generator of input files of the Python module.  A system is put     *)
(* together from objects which may be changed at any time, refer to each   *)
(* other and get their number when they are added; Create() writes down    *)
(* what they are by then.                                                  *)
(*                                                                         *)
(* State: obj[name] = [k, f] an object of class k with fields f;           *)
(* list[k] = the names of the objects of class k added, in order.          *)
(* Values: [n |-> "1.5"], [i |-> 3], [s |-> "word"], [b |-> TRUE],         *)
(* [l |-> <<"1.0", ...>>] a list, [o |-> name] an object, [none |-> TRUE]. *)
(***************************************************************************)
EXTENDS Forms

Params == [LineMaterial |-> <<"name", "d", "w", "ea", "ba", "ei", "cdn", "can", "cdt", "cat">>,
           RodMaterial |-> <<"name", "d", "w", "cdn", "can", "cdt", "cat">>,
           Body |-> <<"type", "p", "r", "mass", "cog", "I", "cda", "vol", "ca">>,
           Rod |-> <<"material", "point", "p0", "p1", "n">>,
           Point |-> <<"type", "p", "mass", "vol", "cda", "ca">>,
           Line |-> <<"material", "point0", "point1", "l", "n">>,
           Option |-> <<"name", "value">>,
           LinePoint |-> <<"obj", "end_point">>, BodyPoint |-> <<>>, RodPoint |-> <<>>]
Sections == <<"LineMaterial", "RodMaterial", "Body", "Rod", "Point", "Line", "Option">>
Lists == {"p", "r", "cog", "p0", "p1"}     \* fields which are always lists
BodyLists == Lists \cup {"I", "cda", "ca"}

Is(v, t) == t \in DOMAIN v
AsList(v) == IF Is(v, "l") THEN v ELSE IF Is(v, "n") THEN [l |-> <<v.n>>] ELSE [l |-> <<ToString(v.i)>>]
Stored(k, f, v) == IF f \in (IF k = "Body" THEN BodyLists ELSE Lists) THEN AsList(v) ELSE v

Empty == [obj |-> [x \in {} |-> 0], list |-> [k \in {Sections[i] : i \in 1..Len(Sections)} |-> <<>>]]
Yes == [b |-> TRUE]
No == [b |-> FALSE]
None == [none |-> TRUE]

Fresh(k, a) ==
  CASE k = "BodyPoint" -> [fixed |-> Yes, coupled |-> No]
    [] k = "RodPoint" -> [fixed |-> Yes, pinned |-> No, coupled |-> No, body |-> None]
    [] OTHER -> [f \in {Params[k][i] : i \in 1..Len(Params[k])} |->
                  LET i == CHOOSE j \in 1..Len(Params[k]) : Params[k][j] = f IN
                  IF i <= Len(a) THEN Stored(k, f, a[i]) ELSE [s |-> "A"]]

(* what an attachment is: the last word counts *)
Change(k, r, f, v) ==
  LET n == [r EXCEPT ![f] = Stored(k, f, v)] IN
  CASE k \in {"BodyPoint", "RodPoint"} /\ f = "fixed" /\ v = Yes -> [n EXCEPT !.coupled = No]
    [] k \in {"BodyPoint", "RodPoint"} /\ f = "coupled" /\ v = Yes -> [n EXCEPT !.fixed = No]
    [] k = "RodPoint" /\ f = "body" /\ Is(v, "o") -> [n EXCEPT !.coupled = No, !.fixed = Yes]
    [] OTHER -> n

Do(g, c) ==
  CASE c.c = "new" -> [g EXCEPT !.obj = (c.o :> [k |-> c.k, f |-> Fresh(c.k, c.a)]) @@ @]
    [] c.c \in {"set", "values"} -> [g EXCEPT !.obj[c.o].f = Change(g.obj[c.o].k, @, c.f, c.v)]
    [] c.c = "add" -> [g EXCEPT !.list[g.obj[c.o].k] = Append(@, c.o)]
    [] OTHER -> g

(* ------------------------------- the file ------------------------------ *)
Number(g, o) == LET s == g.list[g.obj[o].k] IN IF \E i \in 1..Len(s) : s[i] = o THEN CHOOSE i \in 1..Len(s) : s[i] = o ELSE 0
Flag(f, x) == f[x] = Yes
RodWord(g, f) ==
  IF Is(f.body, "o") THEN "BODY" \o ToString(Number(g, f.body.o)) \o (IF Flag(f, "pinned") THEN "PINNED" ELSE "")
  ELSE IF Flag(f, "fixed") THEN (IF Flag(f, "pinned") THEN "PINNED" ELSE "FIXED")
  ELSE IF ~Flag(f, "coupled") THEN "FREE" ELSE IF Flag(f, "pinned") THEN "CPLDPIN" ELSE "COUPLED"
BodyWord(f) == IF Flag(f, "fixed") THEN "FIXED" ELSE IF Flag(f, "coupled") THEN "COUPLED" ELSE "FREE"
RECURSIVE Word(_, _)
Word(g, v) ==
  CASE Is(v, "n") -> v.n
    [] Is(v, "i") -> ToString(v.i)
    [] Is(v, "s") -> v.s
    [] Is(v, "o") ->
       LET o == g.obj[v.o] IN
       CASE o.k \in {"LineMaterial", "RodMaterial"} -> Word(g, o.f.name)
         [] o.k = "Body" -> "BODY" \o ToString(Number(g, v.o))
         [] o.k = "BodyPoint" -> BodyWord(o.f)
         [] o.k = "RodPoint" -> RodWord(g, o.f)
         [] o.k = "LinePoint" -> (IF g.obj[o.f.obj.o].k = "Rod" THEN "R" ELSE "") \o ToString(Number(g, o.f.obj.o)) \o
                                 (IF g.obj[o.f.obj.o].k = "Rod" THEN Word(g, o.f.end_point) ELSE "")

RECURSIVE Barred(_)
Barred(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "|" \o Barred(Tail(s))
Degrees(x) == FMul(N(x), "57.29577951308232")
Row(g, o) ==
  LET k == g.obj[o].k f == g.obj[o].f id == ToString(Number(g, o)) W(x) == Word(g, f[x]) IN
  CASE k \in {"LineMaterial", "RodMaterial"} -> [i \in 1..Len(Params[k]) |-> W(Params[k][i])]
    [] k = "Body" -> <<id, W("type")>> \o f.p.l \o [i \in 1..3 |-> Degrees(f.r.l[i])] \o
                     <<W("mass"), Barred(f.cog.l), Barred(f.I.l), W("vol"), Barred(f.cda.l), Barred(f.ca.l)>>
    [] k = "Rod" -> <<id, W("material"), W("point")>> \o f.p0.l \o f.p1.l \o <<W("n"), "-">>
    [] k = "Point" -> <<id, W("type")>> \o f.p.l \o <<W("mass"), W("vol"), W("cda"), W("ca")>>
    [] k = "Line" -> <<id, W("material"), W("point0"), W("point1"), W("l"), W("n"), "-">>
    [] k = "Option" -> <<W("value"), W("name")>>
Heading == [LineMaterial |-> "LINE TYPES", RodMaterial |-> "ROD TYPES", Body |-> "BODIES", Rod |-> "RODS", Point |-> "POINTS",
            Line |-> "LINES", Option |-> "OPTIONS"]
FileOf(g) ==
  [secs |-> [i \in 1..Len(Sections) |-> LET k == Sections[i] IN
              [s |-> Heading[k], rows |-> [j \in 1..Len(g.list[k]) |-> Row(g, g.list[k][j])]]],
   files |-> <<>>, aux |-> <<>>, closed |-> TRUE]

(* the file as it was written: its tables have two rows of labels *)
Untabled == {"OPTIONS", "OUTPUTS", "OUTPUT"}
Written(secs) ==
  [secs |-> [i \in 1..Len(secs) |-> LET t == TitleOf(secs[i].s) n == Len(secs[i].rows) IN
              [s |-> t, rows |-> IF t \in Untabled THEN secs[i].rows ELSE SubSeq(secs[i].rows, 3, n)]],
   files |-> <<>>, aux |-> <<>>, closed |-> TRUE]

(* values of fields which are read back *)
Value(g, o, f) == g.obj[o].f[f]
NCoupled(m) == 6 * Cardinality({i \in 1..Len(m.bodies) : m.bodies[i].k = "coupled"}) +
               6 * Cardinality({i \in 1..Len(m.rods) : m.rods[i].k = "coupled"}) + 3 * Cardinality({i \in 1..Len(m.rods) : m.rods[i].k = "cpldpin"}) +
               3 * Cardinality({i \in 1..Len(m.points) : m.points[i].k = "coupled"})
=============================================================================
