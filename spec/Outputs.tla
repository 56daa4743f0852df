------------------------------- MODULE Outputs -------------------------------
(***************************************************************************)
(* The output files of a run.  m.out = [dtout, units, chans, files]:       *)
(*   chans : << [name, c, i, node, q] >> columns of the main file, where c *)
(*           is "line", "point", "rod" or "body", i its number, node the   *)
(*           node or -1 for the object, q the quantity                     *)
(*   files : << [c, i, flags] >> the files of the single objects           *)
(* A file is a sequence of rows of tokens.  A row belongs to a call (Init  *)
(* or a Step) and its values are those of the system when the call returns.*)
(***************************************************************************)
EXTENDS World

(* ------------------------------ when ----------------------------------- *)
(* calls: << [t0, t1] >> start and end of the interval each call advanced, *)
(* the first one being Init.  With dtOut = 0 every call writes a row; else *)
(* the calls in whose interval a multiple of dtOut was reached do.         *)
TieTol == "1.0E-9"
\* a multiple of d in ]a, b]
Crosses(d, a, b) == FLe(FMul(d, FAdd(FI(FInt(FDiv(a, d))), "1.0")), b)
Must(d, c) == Crosses(d, FAdd(c.t0, TieTol), FSub(c.t1, TieTol))
May(d, c) == Crosses(d, FSub(c.t0, TieTol), FAdd(c.t1, TieTol))
\* calls which wrote the rows, recovered from the printed times
RECURSIVE Match(_, _, _)
Match(times, calls, from) ==
  IF times = <<>> THEN <<>>
  ELSE LET s == {k \in from..Len(calls) : FClose(calls[k].t1, Head(times), "1.0E-5", "1.0E-9")} IN
       IF s = {} THEN <<0>>
       ELSE LET k == CHOOSE a \in s : \A b \in s : a <= b IN <<k>> \o Match(Tail(times), calls, k + 1)
\* every multiple of d passed so far was followed by a row at the call reaching it, or, for a tie, the next
RowsOk(d, calls, S) ==
  /\ \A k \in DOMAIN S : S[k] > 1 /\ May(d, calls[S[k]])
  /\ \A k \in 2..Len(calls) : Must(d, calls[k]) => k \in {S[j] : j \in DOMAIN S}

(* ------------------------------ what ----------------------------------- *)
Deg(x) == FMul(x, FDiv("180.0", Pi))
Axis(q, names) == CHOOSE j \in 1..3 : names[j] = q
IsOf(q, names) == q \in {names[1], names[2], names[3]}
PN == <<"PX", "PY", "PZ">>
VN == <<"VX", "VY", "VZ">>
RN == <<"RX", "RY", "RZ">>
WN == <<"RVX", "RVY", "RVZ">>
AN == <<"AX", "AY", "AZ">>
BN == <<"RAX", "RAY", "RAZ">>
FN == <<"FX", "FY", "FZ">>
MN == <<"MX", "MY", "MZ">>

Unit(q) == IF IsOf(q, PN) THEN "(m)" ELSE IF IsOf(q, VN) THEN "(m/s)" ELSE IF IsOf(q, RN) THEN "(deg)"
  ELSE IF IsOf(q, WN) THEN "(deg/s)" ELSE IF IsOf(q, AN) THEN "(m/s2)" ELSE IF IsOf(q, BN) THEN "(deg/s2)"
  ELSE IF IsOf(q, MN) THEN "(Nm)" ELSE IF q = "SUB" THEN "(frac)" ELSE "(N)"

Free_ == <<>>                     \* nothing is claimed
Val(x, atol) == [v |-> x, a |-> atol]

(* inclination of a rod: zero when it stands with its end B up *)
RodTilt(q) ==
  LET h == FSqrt(FAdd(FMul(q[1], q[1]), FMul(q[2], q[2])))
      phi == FAtan2(h, q[3])
  IN IF FLt(h, "1.0E-9") THEN Free_ ELSE <<FNeg(FMul(phi, FDiv(q[2], h))), FMul(phi, FDiv(q[1], h))>>

LineChan(m, o, c) ==
  LET k == o.line[c.i]
      j == c.node + 1
      n == m.lines[c.i].n IN
  CASE IsOf(c.q, PN) -> Val(k.r[j][Axis(c.q, PN)], "0.0")
    [] IsOf(c.q, VN) -> Val(k.rd[j][Axis(c.q, VN)], "0.0")
    [] IsOf(c.q, FN) -> Val(k.f[j][Axis(c.q, FN)], "0.0")
    [] c.q = "T" -> Val(VNorm(IF j = 1 \/ j = n + 1 THEN k.f[j] ELSE k.ten[j]), "0.0")
    [] c.q = "TA" -> Val(VNorm(k.f[1]), "0.0")
    [] c.q = "TB" -> Val(VNorm(k.f[n+1]), "0.0")
    [] OTHER -> Free_

PointChan(m, o, c, ini) ==
  LET k == o.point[c.i]
      kind == m.points[c.i].k
      live == LivePoint(m, c.i) IN
  CASE IsOf(c.q, PN) -> Val(k.r[Axis(c.q, PN)], "0.0")
    [] IsOf(c.q, VN) -> Val(k.rd[Axis(c.q, VN)], "0.0")
    [] IsOf(c.q, FN) -> IF live THEN Val(k.f[Axis(c.q, FN)], "0.0") ELSE Free_
    [] c.q = "T" -> IF live THEN Val(VNorm(k.f), "0.0") ELSE Free_
    [] IsOf(c.q, AN) ->
         IF ini THEN Free_
         ELSE IF kind \in {"fixed", "coupled"} THEN Val("0.0", "0.0")
         ELSE IF kind = "free" THEN LET a == MSolve(k.m, k.f) IN Val(a[Axis(c.q, AN)], FMul("1.0E-9", VMaxAbs(a)))
         ELSE Free_
    [] OTHER -> Free_

BodyChan(m, o, c, ini) ==
  LET k == o.body[c.i]
      kind == m.bodies[c.i].k
      free == kind = "free"
      acc(j) == LET a == MSolve(k.m, k.f) IN Val(IF j > 3 THEN Deg(a[j]) ELSE a[j], FMul("1.0E-7", Deg(VMaxAbs(a)))) IN
  CASE IsOf(c.q, PN) -> Val(k.r[Axis(c.q, PN)], "0.0")
    [] IsOf(c.q, RN) -> Val(Deg(k.r[3 + Axis(c.q, RN)]), "1.0E-9")
    [] IsOf(c.q, VN) -> Val(k.rd[Axis(c.q, VN)], "0.0")
    [] IsOf(c.q, WN) -> Val(Deg(k.rd[3 + Axis(c.q, WN)]), "0.0")
    [] IsOf(c.q, FN) -> IF LiveBody(m, c.i) THEN Val(k.f[Axis(c.q, FN)], "0.0") ELSE Free_
    [] IsOf(c.q, MN) -> IF LiveBody(m, c.i) THEN Val(k.f[3 + Axis(c.q, MN)], "0.0") ELSE Free_
    [] IsOf(c.q, AN) -> IF free /\ ~ini THEN acc(Axis(c.q, AN)) ELSE Free_
    [] IsOf(c.q, BN) -> IF free /\ ~ini THEN acc(3 + Axis(c.q, BN)) ELSE Free_
    [] c.q = "T" -> IF free THEN Val(VNorm(Sub3(k.f)), "0.0") ELSE Free_
    [] OTHER -> Free_

RodEnd(m, o, i, e) == LET s == EndsAt(m, o, "r", i, e) IN VNorm(VSumSeq([j \in 1..Len(s) |-> s[j].f], Z3))
RodChan(m, w, o, c, ini, probe) ==
  LET k == o.rod[c.i]
      R == m.rods[c.i]
      live == LiveRod(m, c.i)
      j == IF c.node < 0 THEN 1 ELSE c.node + 1
      law == RodLaw(m, w, o, c.i)
      tilt == RodTilt(RodQ(k))
      acc(p) == LET a == MSolve(k.m, k.f) IN Val(IF p > 3 THEN Deg(a[p]) ELSE a[p], FMul("1.0E-7", Deg(VMaxAbs(a)))) IN
  CASE IsOf(c.q, PN) -> Val(k.r[j][Axis(c.q, PN)], "1.0E-9")
    [] IsOf(c.q, VN) -> Val(k.rd[j][Axis(c.q, VN)], "1.0E-7")
    [] c.node >= 0 /\ IsOf(c.q, FN) ->
         IF probe /\ live THEN Val(law.fn[j][Axis(c.q, FN)], FMul("1.0E-5", FAdd("1.0", VMaxAbs(Flat(law.fn))))) ELSE Free_
    [] IsOf(c.q, FN) -> IF live THEN Val(k.f[Axis(c.q, FN)], "0.0") ELSE Free_
    [] IsOf(c.q, MN) -> IF live THEN Val(k.f[3 + Axis(c.q, MN)], "0.0") ELSE Free_
    [] c.q \in {"RX", "RY"} ->
         IF tilt = Free_ THEN Free_ ELSE Val(Deg(tilt[Axis(c.q, RN)]), "1.0E-5")
    [] c.q \in {"RVX", "RVY"} ->
         IF R.k = "coupled" /\ ~ini THEN Val(Deg(Tail3(Part(w.xd, SlotOf(m, "rod", c.i)))[Axis(c.q, WN)]), "0.0") ELSE Free_
    [] IsOf(c.q, AN) -> IF R.k = "free" /\ ~ini THEN acc(Axis(c.q, AN)) ELSE Free_
    [] c.q \in {"RAX", "RAY"} -> IF R.k = "free" /\ ~ini THEN acc(3 + Axis(c.q, BN)) ELSE Free_
    [] c.q = "TA" -> IF live THEN Val(RodEnd(m, o, c.i, 0), "0.0") ELSE Free_
    [] c.q = "TB" -> IF live THEN Val(RodEnd(m, o, c.i, 1), "0.0") ELSE Free_
    [] c.q = "SUB" -> IF probe /\ live THEN Val(FDiv(VSum(law.vof), FI(R.n + 1)), "1.0E-5") ELSE Free_
    [] OTHER -> Free_

Chan(m, w, o, c, ini, probe) ==
  IF c.c = "line" THEN LineChan(m, o, c)
  ELSE IF c.c = "point" THEN PointChan(m, o, c, ini)
  ELSE IF c.c = "body" THEN BodyChan(m, o, c, ini)
  ELSE RodChan(m, w, o, c, ini, probe)

(* ------------------------- files of the objects ------------------------ *)
\* columns : << [name, unit, val] >>, val = Free_ where nothing is claimed
XYZ(pre(_), suf, unit, n, v(_)) == Flat([i \in 1..n |-> [j \in 1..3 |->
   [name |-> pre(i) \o suf \o <<"x", "y", "z">>[j], unit |-> unit, val |-> IF v(i) = Free_ THEN Free_ ELSE Val(v(i)[j], "0.0")]]])
Node(i) == "Node" \o ToString(i - 1)
Seg(i) == "Seg" \o ToString(i)
One(pre(_), suf, unit, n, v(_)) == [i \in 1..n |-> [name |-> pre(i) \o suf, unit |-> unit, val |-> v(i)]]
If(c, s) == IF c THEN s ELSE <<>>

LineCols(m, w, o, i, fl, probe) ==
  LET k == o.line[i]
      n == m.lines[i].n
      a == TLCEval(IF probe THEN LineLaw_(m, w, o, i) ELSE <<>>)
      tol == FMul("1.0E-6", FAdd("1.0", FMul(w.ea[i], "0.01")))
      p_(j) == k.r[j]
      v_(j) == k.rd[j]
      u_(j) == IF m.wk = "still" THEN Z3 ELSE IF probe THEN o.wk.line[i][j].U ELSE Free_
      d_(j) == VAdd(k.drag[j], k.fk[j])
      b_(j) == k.b[j]
      k_(j) == Val(k.curv[j], "0.0")
      t_(j) == IF probe THEN Val(VNorm(a.T[j]), tol) ELSE Free_
      c_(j) == IF probe THEN Val(VNorm(a.Td[j]), tol) ELSE Free_
      s_(j) == IF probe THEN Val(FSub(FDiv(a.lstr[j], a.l), "1.0"), "1.0E-9") ELSE Free_
      r_(j) == IF probe THEN Val(FDiv(a.ld[j], a.l), "1.0E-7") ELSE Free_
      tdv(j) == IF probe THEN a.Td[j] ELSE Free_
  IN If("p" \in fl, XYZ(Node, "p", "(m)", n + 1, p_))
  \o If("K" \in fl, One(Node, "Ku", "(1/m)", n + 1, k_))
  \o If("v" \in fl, XYZ(Node, "v", "(m/s)", n + 1, v_))
  \o If("U" \in fl, XYZ(Node, "U", "(m/s)", n + 1, u_))
  \o If("D" \in fl, XYZ(Node, "D", "(N)", n + 1, d_))
  \o If("t" \in fl, One(Seg, "Te", "(N)", n, t_))
  \o If("c" \in fl, Flat([s \in 1..n |-> [j \in 1..3 |->
          [name |-> Seg(s) \o "c" \o <<"x", "y", "z">>[j], unit |-> "(N)",
           val |-> IF probe THEN Val(a.Td[s][j], FAdd(tol, FMul("1.0E-6", VMaxAbs(a.Td[s])))) ELSE Free_]]]))
  \o If("s" \in fl, One(Seg, "St", "(-)", n, s_))
  \o If("d" \in fl, One(Seg, "dSt", "(-/s)", n, r_))
  \o If("b" \in fl, XYZ(Node, "b", "(N)", n + 1, b_))

RodCols(m, w, o, i, fl, probe) ==
  LET k == o.rod[i]
      n == m.rods[i].n
      p_(j) == k.r[j]
      v_(j) == k.rd[j]
  IN If("p" \in fl, XYZ(Node, "p", "(m)", n + 1, p_)) \o If("v" \in fl, XYZ(Node, "v", "(m/s)", n + 1, v_))

BodyCols(m, o, i) ==
  LET r == o.body[i].r
      nm == <<"x", "y", "z", "roll", "pitch", "yaw">> IN
  [j \in 1..6 |-> [name |-> nm[j], unit |-> IF j <= 3 THEN "(m)" ELSE "(deg)",
                   val |-> IF j <= 3 THEN Val(r[j], "0.0") ELSE Val(Deg(r[j]), "1.0E-9")]]

MainCols(m, w, o, ini, probe) ==
  [j \in 1..Len(m.out.chans) |-> LET c == m.out.chans[j] IN
     [name |-> c.name, unit |-> Unit(c.q), val |-> Chan(m, w, o, c, ini, probe)]]

Cols(m, w, o, f, ini, probe) ==
  IF f.c = "main" THEN MainCols(m, w, o, ini, probe)
  ELSE IF f.c = "line" THEN LineCols(m, w, o, f.i, Range(f.flags), probe)
  ELSE IF f.c = "rod" THEN RodCols(m, w, o, f.i, Range(f.flags), probe)
  ELSE BodyCols(m, o, f.i)
=============================================================================
