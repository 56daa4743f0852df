-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* What an accepted input file says, whatever the form in which it is      *)
(* written: two files with the same meaning describe the same system, so   *)
(* nothing that can be observed of the simulation tells them apart.        *)
(***************************************************************************)
EXTENDS InputFile

(* numbers are numbers, however they are written *)
N(x) == F(x)
NV(r, i, n) == [j \in 1..n |-> N(r[i + j - 1])]
RECURSIVE BarFrom(_, _, _)
BarFrom(s, i, cur) ==
  LET out == IF cur = "" THEN <<>> ELSE <<N(cur)>> IN
  IF i > Len(s) THEN out
  ELSE IF Ch(s, i) = "|" THEN out \o BarFrom(s, i + 1, "")
  ELSE BarFrom(s, i + 1, cur \o Ch(s, i))
Bars(s) == BarFrom(s, 1, "")

(* a heading names its section in letters of any case, between dashes *)
TitleOf(s) == LET u == Up(s) k == {t \in UNION {Titles[x] : x \in DOMAIN Titles} : SHas(u, t)} IN
  IF k = {} THEN s ELSE CHOOSE t \in k : \A v \in k : Len(v) <= Len(t)
Titled(f) == TLCEval([f EXCEPT !.secs = [i \in 1..Len(f.secs) |-> [f.secs[i] EXCEPT !.s = TitleOf(f.secs[i].s)]],
                       !.aux = [i \in 1..Len(f.files) |-> f.files[i].n]])

Content(f, x) == LET S == {i \in 1..Len(f.files) : f.files[i].n = x} IN
  IF S = {} THEN N(x) ELSE f.files[CHOOSE i \in S : TRUE].c

One(f, k, name) == LET S == {i \in 1..Len(Rows(f, k)) : Rows(f, k)[i][1] = name} IN Rows(f, k)[First(S)]
LineType(f, x) == LET r == One(f, "linetypes", x) IN
  NV(r, 2, 2) \o [j \in 1..3 |-> Content(f, r[3 + j])] \o NV(r, 7, 4)
RodType(f, x) == NV(One(f, "rodtypes", x), 2, 6)

Parent(word) == LET a == Runs(word) IN IF a[1] = "BODY" THEN Atoi(a[2]) ELSE 0
(* one value stands for all, in the ways of each column *)
Cg(s) == LET v == Bars(s) IN IF Len(v) = 1 THEN <<"0.0", "0.0", v[1]>> ELSE v
Same3(s) == LET v == Bars(s) IN IF Len(v) = 1 THEN <<v[1], v[1], v[1]>> ELSE v
Six(s) == LET v == Bars(s) IN
  CASE Len(v) = 1 -> [j \in 1..6 |-> v[1]]
    [] Len(v) = 2 -> [j \in 1..6 |-> IF j <= 3 THEN v[1] ELSE v[2]]
    [] Len(v) = 3 -> v \o v
    [] OTHER -> v
MBody(f, r) == [k |-> BodyKind(r), r0 |-> NV(r, 3, 6), mass |-> N(r[9]), cg |-> Cg(r[10]), I |-> Same3(r[11]), vol |-> N(r[12]),
                CdA |-> Six(r[13]), Ca |-> Same3(r[14])]
MRod(f, r) == [k |-> RodKind(f, r), b |-> Parent(r[3]), t |-> RodType(f, r[2]), ab |-> NV(r, 4, 6), n |-> Atoi(r[10])]
MPoint(f, r) == [k |-> PointKind(f, r), b |-> Parent(r[2]), r0 |-> NV(r, 3, 3), p |-> NV(r, 6, 4)]
End(x) == LET a == Runs(x) IN [rod |-> a[1] \in {"R", "ROD"}, i |-> Atoi(a[2]), e |-> a[3]]
MLine(f, r) == [t |-> LineType(f, r[2]), A |-> End(r[3]), B |-> End(r[4]), L |-> N(r[5]), n |-> Atoi(r[6])]

(* the options: the last setting counts, what is left out has its default  *)
(* value, and writing a log changes nothing                                *)
Val(f, names, default) == LET S == Settings(f, names) IN IF S = <<>> THEN N(default) ELSE N(Last(S)[1])
Unset(f, names) == Settings(f, names) = <<>>
Dtm(f) == IF Unset(f, {"dtM", "DT"}) THEN "unset" ELSE Val(f, {"dtM", "DT"}, "0")
Cfl(f) == IF ~Unset(f, {"CFL", "cfl"}) THEN Val(f, {"CFL", "cfl"}, "0") ELSE IF Dtm(f) = "unset" THEN "0.5" ELSE "unset"
Scheme(f) == LET S == Settings(f, {"tScheme"}) IN IF S = <<>> THEN "RK2" ELSE Up(Last(S)[1])
Bed(f) == LET S == Settings(f, {"SeafloorFile"}) IN IF S = <<>> THEN "none" ELSE Content(f, Last(S)[1])
MOptions(f) ==
  [dtM |-> Dtm(f), cfl |-> Cfl(f), sch |-> Scheme(f), bed |-> Bed(f),
   g |-> Val(f, {"g", "gravity"}, "9.80665"), rho |-> Val(f, {"Rho", "rho", "WtrDnsty"}, "1025"), wd |-> Val(f, {"WtrDpth"}, "0"),
   kb |-> Val(f, {"kBot", "kbot", "kb"}, "3.0e6"), cb |-> Val(f, {"cBot", "cbot", "cb"}, "3.0e5"),
   dtIC |-> Val(f, {"dtIC", "ICdt"}, "1"), TmaxIC |-> Val(f, {"TmaxIC", "ICTmax"}, "120"),
   CdIC |-> Val(f, {"CdScaleIC", "ICDfac"}, "5"), thIC |-> Val(f, {"threshIC", "ICthresh"}, "0.001"), dyn |-> Val(f, {"ICgenDynamic"}, "0"),
   wave |-> Val(f, {"WaveKin"}, "0"), dtWave |-> Val(f, {"dtWave"}, "0.25"), cur |-> Val(f, {"Currents"}, "0"),
   uni |-> Val(f, {"UnifyCurrentGrid"}, "1"), units |-> Val(f, {"WriteUnits"}, "1"), fc |-> Val(f, {"FrictionCoefficient"}, "0"),
   fd |-> Val(f, {"FricDamp"}, "200"), fs |-> Val(f, {"StatDynFricScale"}, "1"), dtOut |-> Val(f, {"dtOut"}, "0")]

(* the channels: which number of which object *)
Long == [L |-> "LINE", P |-> "POINT", R |-> "ROD", B |-> "BODY"]
Chan(f, x) ==
  LET a == Runs(x)
      o == IF a[1] \in DOMAIN Long THEN Long[a[1]] ELSE a[1]
      id == Atoi(a[2])
      named == a[5] = "" /\ o \in {"LINE", "ROD"} /\ Pre2(a[3]) \in {"NA", "NB"}
      segs == IF o = "LINE" THEN Atoi(Rows(f, "lines")[id][6]) ELSE IF o = "ROD" THEN Atoi(Rows(f, "rods")[id][10]) ELSE 0
      q == IF a[5] # "" THEN a[5] ELSE IF named THEN Cut2(a[3]) ELSE a[3]
      qq == CASE q = "T" -> "TEN" [] q = "TA" -> "TENA" [] q = "TB" -> "TENB" [] OTHER -> q
      node == IF named THEN (IF Pre2(a[3]) = "NA" THEN 0 ELSE segs) ELSE IF a[5] # "" THEN Atoi(a[4]) ELSE IF o = "LINE" THEN 0 ELSE -1
  IN IF o = "FAIRTEN" THEN <<"LINE", id, 0, "TENB">> ELSE IF o = "ANCHTEN" THEN <<"LINE", id, 0, "TENA">>
     ELSE <<o, id, IF qq \in {"TENA", "TENB"} THEN 0 ELSE node, qq>>
MOutputs(f) ==
  LET xs == Flatten(Rows(f, "outputs"), 1) ok == SelectSeq(xs, LAMBDA x : Column(f, x) # "") IN [i \in 1..Len(ok) |-> Chan(f, ok[i])]

Meaning(f0) == LET f == Titled(f0) IN
  [bodies |-> [i \in 1..NBodies(f) |-> MBody(f, Rows(f, "bodies")[i])], rods |-> [i \in 1..NRods(f) |-> MRod(f, Rows(f, "rods")[i])],
   points |-> [i \in 1..NPoints(f) |-> MPoint(f, Rows(f, "points")[i])], lines |-> [i \in 1..NLines(f) |-> MLine(f, Rows(f, "lines")[i])],
   opt |-> MOptions(f), out |-> MOutputs(f)]
=============================================================================
