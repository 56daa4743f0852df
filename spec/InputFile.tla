------------------------------ MODULE InputFile ------------------------------
(***************************************************************************)
(* The input file: which files are accepted, which system they describe    *)
(* and which columns the main output file gets.                            *)
(*                                                                         *)
(* A file is a record [secs, closed, aux]: its sections in the order in    *)
(* which they are written, each with a heading s, a number of label lines  *)
(* lab and rows of words; aux names the files that exist beside it.        *)
(***************************************************************************)
EXTENDS FP, FiniteSets, TLC

(* -------------------------------- words -------------------------------- *)
Ch(s, i) == SubSeq(s, i, i)
UpperL == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DigitS == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
UpSet == {Ch(UpperL, i) : i \in 1..26}
Up(s) == SUpper(s)

Letter(c) == c \in UpSet
Digit(c) == c \in DigitS

(* a word as alternating runs of letters and digits, beginning with letters *)
(* (perhaps none); other characters belong to the run they are found in     *)
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, letters) ==
  IF i > Len(s) THEN i
  ELSE IF letters /\ Digit(Ch(s, i)) THEN i
  ELSE IF ~letters /\ Letter(Ch(s, i)) THEN i
  ELSE RunEnd(s, i + 1, letters)
RECURSIVE RunsFrom(_, _, _)
RunsFrom(s, i, n) ==
  IF n = 0 THEN <<SubSeq(s, i, Len(s))>>
  ELSE LET j == RunEnd(s, i, n \in {4, 2}) IN <<SubSeq(s, i, j - 1)>> \o RunsFrom(s, j, n - 1)
(* <<letters, digits, letters, digits, the rest>> *)
Runs(s) == RunsFrom(Up(s), 1, 4)

(* the number at the beginning of a word, 0 if there is none *)
RECURSIVE DigitsFrom(_, _, _)
DigVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
DigitsFrom(s, i, acc) == IF i > Len(s) \/ ~Digit(Ch(s, i)) THEN acc ELSE DigitsFrom(s, i + 1, 10 * acc + DigVal(Ch(s, i)))
Atoi(s) == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN 0 - DigitsFrom(s, 2, 0) ELSE DigitsFrom(s, 1, 0)

(* the pieces of a word between bars *)
RECURSIVE BarsFrom(_, _, _)
BarsFrom(s, i, cur) ==
  IF i > Len(s) THEN IF cur = "" THEN 0 ELSE 1
  ELSE IF Ch(s, i) = "|" THEN (IF cur = "" THEN 0 ELSE 1) + BarsFrom(s, i + 1, "")
  ELSE BarsFrom(s, i + 1, Ch(s, i))
Pieces(s) == BarsFrom(s, 1, "")

NonEmpty(row) == SelectSeq(row, LAMBDA x : x # "")
IsNumber(x) == FIsNum(x) \/ x \in {"nan", "inf"}

(* ------------------------------- sections ------------------------------ *)
Titles == [linetypes |-> {"LINE TYPES", "LINE DICTIONARY"}, rodtypes |-> {"ROD TYPES", "ROD DICTIONARY"},
           bodies |-> {"BODIES", "BODY LIST", "BODY PROPERTIES"}, rods |-> {"RODS", "ROD LIST", "ROD PROPERTIES"},
           points |-> {"POINTS", "POINT LIST", "POINT PROPERTIES", "CONNECTION PROPERTIES", "NODE PROPERTIES"},
           lines |-> {"LINES", "LINE LIST", "LINE PROPERTIES"}, options |-> {"OPTIONS"}, outputs |-> {"OUTPUTS", "OUTPUT"}]
Found(f, k) == {i \in 1..Len(f.secs) : f.secs[i].s \in Titles[k]}
Present(f, k) == Found(f, k) # {}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Rows(f, k) ==
  IF ~Present(f, k) THEN <<>>
  ELSE LET rs == f.secs[First(Found(f, k))].rows IN [i \in 1..Len(rs) |-> NonEmpty(rs[i])]

(* ------------------------------ the objects ---------------------------- *)
Fix == {"ANCHOR", "FIXED", "FIX"}
Cpl == {"VESSEL", "VES", "COUPLED", "CPLD"}
CplPin == {"VESSELPINNED", "VESPIN", "CPLDPIN", "COUPLEDPINNED"}
Pin == {"PINNED", "PIN"}

Curve(f, x) == IsNumber(x) \/ x \in {f.aux[i] : i \in 1..Len(f.aux)}
LineTypeOk(f, r) == Len(r) >= 10 /\ Curve(f, r[4]) /\ Curve(f, r[5]) /\ Curve(f, r[6])
RodTypeOk(r) == Len(r) >= 7
BodyOk(r) == /\ Len(r) >= 14
             /\ Pieces(r[10]) \in {1, 3} /\ Pieces(r[11]) \in {1, 3}
             /\ Pieces(r[13]) \in {1, 2, 3, 6} /\ Pieces(r[14]) \in {1, 3}
BodyKind(r) == LET a == Runs(r[2])[1] IN
  IF a \in Fix THEN "fixed" ELSE IF a \in Cpl THEN "coupled" ELSE IF a \in CplPin THEN "cpldpin" ELSE "free"

NBodies(f) == Len(Rows(f, "bodies"))
NRods(f) == Len(Rows(f, "rods"))
NPoints(f) == Len(Rows(f, "points"))
NLines(f) == Len(Rows(f, "lines"))
Exists(d, n) == d # "" /\ Atoi(d) >= 1 /\ Atoi(d) <= n

PointKind(f, r) == LET a == Runs(r[2]) IN
  IF a[1] \in Fix THEN "fixed"
  ELSE IF a[1] = "BODY" THEN (IF Exists(a[2], NBodies(f)) THEN "fixed" ELSE "none")
  ELSE IF a[1] \in Cpl \cup {"FAIRLEAD"} THEN "coupled"
  ELSE IF a[1] \in {"POINT", "CONNECT", "CON", "FREE"} THEN "free"
  ELSE "none"
PointOk(f, r) == Len(r) >= 9 /\ PointKind(f, r) # "none"

Names(f, k) == {Rows(f, k)[i][1] : i \in {j \in 1..Len(Rows(f, k)) : Len(Rows(f, k)[j]) > 0}}
RodKind(f, r) == LET a == Runs(r[3]) IN
  IF a[1] \in Fix THEN "fixed"
  ELSE IF a[1] \in Pin THEN "pinned"
  ELSE IF a[1] = "BODY" THEN (IF ~Exists(a[2], NBodies(f)) THEN "none" ELSE IF a[3] \in Pin THEN "pinned" ELSE "fixed")
  ELSE IF a[1] \in Cpl THEN "coupled"
  ELSE IF a[1] \in CplPin THEN "cpldpin"
  ELSE IF a[1] \in {"POINT", "CON", "FREE"} THEN "free"
  ELSE "none"
RodOk(f, r) == Len(r) >= 11 /\ RodKind(f, r) # "none" /\ r[2] \in Names(f, "rodtypes") /\ Atoi(r[10]) >= 0

EndOk(f, x) == LET a == Runs(x) IN
  IF a[1] \in {"R", "ROD"} THEN Exists(a[2], NRods(f)) /\ a[3] \in {"A", "B"}
  ELSE a[1] \in {"", "C", "CON", "P", "POINT"} /\ Exists(a[2], NPoints(f))
LineOk(f, r) == Len(r) >= 7 /\ r[2] \in Names(f, "linetypes") /\ Atoi(r[6]) >= 1 /\ EndOk(f, r[3]) /\ EndOk(f, r[4])

(* ------------------------------- the options --------------------------- *)
Opt(f) == SelectSeq(Rows(f, "options"), LAMBDA r : Len(r) >= 2)
Settings(f, names) == SelectSeq(Opt(f), LAMBDA r : r[2] \in names)
Last(s) == s[Len(s)]
IntWord(x) == Len(x) > 0 /\ (Digit(Ch(x, 1)) \/ (Ch(x, 1) = "-" /\ Len(x) > 1 /\ Digit(Ch(x, 2)))) /\ Len(x) < 10
OptOk(f) ==
  /\ \A i \in 1..Len(Opt(f)) : LET r == Opt(f)[i] IN
       /\ r[2] \in {"WaveKin", "Currents"} => IntWord(r[1])
       /\ r[2] = "dtWave" => IsNumber(r[1])
       /\ r[2] = "SeafloorFile" => r[1] \in {f.aux[j] : j \in 1..Len(f.aux)}
  \* the data of the currents are read at once
  /\ Settings(f, {"Currents"}) # <<>> => Atoi(Last(Settings(f, {"Currents"}))[1]) = 0

(* ---------------------------- what is accepted ------------------------- *)
Accepted(f) ==
  /\ OptOk(f)
  /\ \A i \in 1..Len(Rows(f, "linetypes")) : LineTypeOk(f, Rows(f, "linetypes")[i])
  /\ \A i \in 1..Len(Rows(f, "rodtypes")) : RodTypeOk(Rows(f, "rodtypes")[i])
  /\ \A i \in 1..Len(Rows(f, "bodies")) : BodyOk(Rows(f, "bodies")[i])
  /\ \A i \in 1..Len(Rows(f, "points")) : PointOk(f, Rows(f, "points")[i])
  /\ \A i \in 1..Len(Rows(f, "rods")) : RodOk(f, Rows(f, "rods")[i])
  /\ Present(f, "lines") => Len(Rows(f, "linetypes")) > 0
  /\ \A i \in 1..Len(Rows(f, "lines")) : LineOk(f, Rows(f, "lines")[i])

(* the simulation of an accepted file cannot start: no positive time step, *)
(* unknown kind of waves, or waves without data                            *)
NoStart(f) ==
  LET dtm == Settings(f, {"dtM", "DT"}) wk == Settings(f, {"WaveKin"}) IN
  \/ dtm # <<>> /\ LET x == Last(dtm)[1] IN (~IsNumber(x) \/ (FIsNum(x) /\ FLe(F(x), "0.0")))
  \/ wk # <<>> /\ Atoi(Last(wk)[1]) \notin {0, 1, 6}

(* ----------------------------- other files ----------------------------- *)
(* x: the lines of a file, each a sequence of words.  A file which breaks   *)
(* these rules is refused when the system is created or initialised.        *)
Num(r, n) == Len(r) >= n /\ \A i \in 1..n : IsNumber(r[i])
NumAll(r) == \A i \in 1..Len(r) : IsNumber(r[i])
From(x, n) == {x[i] : i \in n..Len(x)}
Axis(t, v) == /\ Num(t, 1) /\ Atoi(t[1]) \in {0, 1, 2}
              /\ Atoi(t[1]) = 1 => Len(v) >= 1
              /\ Atoi(t[1]) = 2 => Len(v) >= 3 /\ IsNumber(v[3]) /\ Atoi(v[3]) >= 2
SideOk(name, x) ==
  CASE name = "curve" -> Len(x) >= 4 /\ \A r \in From(x, 4) : Len(r) >= 2
    [] name = "bed" -> /\ Len(x) >= 4 /\ Num(x[1], 2) /\ Atoi(x[1][1]) >= 1 /\ Atoi(x[1][2]) >= 1
                       /\ Len(x[2]) = Atoi(x[1][1]) /\ NumAll(x[2]) /\ Len(x[3]) = Atoi(x[1][2]) /\ NumAll(x[3])
                       /\ \A r \in From(x, 4) : Len(r) = 3 /\ NumAll(r)
    [] name = "steady" -> Len(x) >= 4 /\ \A r \in From(x, 4) : Num(r, 2)
    [] name = "dyn" -> /\ Len(x) >= 7 /\ Len(x[5]) >= 1 /\ NumAll(x[5])
                       /\ \A r \in From(x, 7) : Num(r, 1 + Len(x[5]))
                       /\ \A i \in 8..Len(x) : FLt(F(x[i - 1][1]), F(x[i][1]))
    [] name = "4d" -> /\ Len(x) >= 7 /\ Num(x[1], 4)
                      /\ \A i \in 1..4 : Atoi(x[1][i]) >= 1 /\ Num(x[i + 1], Atoi(x[1][i]))
                      /\ Len(x) >= 5 + Atoi(x[1][1]) * Atoi(x[1][2]) * Atoi(x[1][3]) * Atoi(x[1][4])
                      /\ \A r \in From(x, 6) : Num(r, 7)
    [] name = "grid" -> Len(x) >= 9 /\ Axis(x[4], x[5]) /\ Axis(x[6], x[7]) /\ Axis(x[8], x[9])
    [] name = "freq" -> Len(x) >= 2 /\ (\A r \in From(x, 1) : Num(r, 3)) /\ FEq(F(x[1][1]), "0.0")
    [] name = "elev" -> Len(x) >= 2 /\ \A r \in From(x, 1) : Num(r, 2)

(* --------------------------- what is described ------------------------- *)
Described(f) ==
  [bodies |-> [i \in 1..NBodies(f) |-> LET r == Rows(f, "bodies")[i] IN [id |-> Atoi(r[1]), k |-> BodyKind(r)]],
   rods |-> [i \in 1..NRods(f) |-> LET r == Rows(f, "rods")[i] IN [id |-> Atoi(r[1]), k |-> RodKind(f, r), n |-> Atoi(r[10])]],
   points |-> [i \in 1..NPoints(f) |-> LET r == Rows(f, "points")[i] IN
                 [id |-> Atoi(r[1]), k |-> PointKind(f, r),
                  att |-> Cardinality({<<j, e>> \in (1..NLines(f)) \X {3, 4} :
                            LET a == Runs(Rows(f, "lines")[j][e]) IN a[1] \notin {"R", "ROD"} /\ Atoi(a[2]) = i})]],
   lines |-> [i \in 1..NLines(f) |-> LET r == Rows(f, "lines")[i] IN [id |-> Atoi(r[1]), n |-> Atoi(r[6])]]]

(* ------------------------------ the columns ---------------------------- *)
Quants == {"PX", "PY", "PZ", "RX", "RY", "RZ", "VX", "VY", "VZ", "RVX", "RVY", "RVZ", "AX", "AY", "AZ", "RAX", "RAY", "RAZ",
           "T", "TEN", "TA", "TENA", "TB", "TENB", "FX", "FY", "FZ", "MX", "MY", "MZ", "SUB"}
Pre2(s) == IF Len(s) >= 2 THEN SubSeq(s, 1, 2) ELSE s
Cut2(s) == SubSeq(s, 3, Len(s))
(* the name a requested channel gets, "" if it is ignored *)
Column(f, x) ==
  LET a == Runs(x)
      c == IF a[1] \in {"L", "LINE", "FAIRTEN", "ANCHTEN"} THEN "line" ELSE IF a[1] \in {"P", "POINT"} THEN "point"
           ELSE IF a[1] \in {"R", "ROD"} THEN "rod" ELSE IF a[1] \in {"B", "BODY"} THEN "body" ELSE "none"
      n == CASE c = "line" -> NLines(f) [] c = "point" -> NPoints(f) [] c = "rod" -> NRods(f) [] c = "body" -> NBodies(f) [] OTHER -> 0
      id == Atoi(a[2])
      segs == IF c = "line" THEN Atoi(Rows(f, "lines")[id][6]) ELSE Atoi(Rows(f, "rods")[id][10])
      named == a[5] = "" /\ c \in {"line", "rod"} /\ Pre2(a[3]) \in {"NA", "NB"}
      q == IF a[5] # "" THEN a[5] ELSE IF named THEN Cut2(a[3]) ELSE a[3]
      node == IF named THEN (IF Pre2(a[3]) = "NA" THEN 0 ELSE segs)
              ELSE IF a[5] # "" THEN Atoi(a[4]) ELSE IF c = "line" THEN 0 ELSE -1
  IN IF c = "none" \/ id < 1 \/ id > n THEN ""
     ELSE IF a[1] \in {"FAIRTEN", "ANCHTEN"} THEN x
     ELSE IF c = "line" /\ a[5] = "" /\ ~named /\ a[4] # "" THEN ""
     ELSE IF c \in {"line", "rod"} /\ node > segs THEN ""
     ELSE IF q \notin Quants THEN ""
     ELSE IF c = "rod" /\ q \in {"T", "TEN"} THEN (IF node > 0 THEN "TenEndB" ELSE "TenEndA")
     ELSE x
RECURSIVE Flatten(_, _)
Flatten(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Flatten(s, i + 1)
Columns(f) ==
  LET xs == Flatten(Rows(f, "outputs"), 1) IN
  <<"Time">> \o SelectSeq([i \in 1..Len(xs) |-> Column(f, xs[i])], LAMBDA c : c # "")
=============================================================================
