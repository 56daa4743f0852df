------------------------------- MODULE Start -------------------------------
(***************************************************************************)
(* How a simulation begins: where everything is when it is initialised     *)
(* and how the initial conditions are relaxed.                             *)
(***************************************************************************)
EXTENDS World

(* ------------------------- the initial profile ------------------------- *)
(* A line hangs as an elastic catenary between its ends, in the vertical   *)
(* plane which contains them.  c = [H, V, W, EA, L, lie]: forces at the    *)
(* upper end, submerged weight per length, stiffness, unstretched length,  *)
(* and whether the lower end lies on the bed.  H and V are proposed by the *)
(* driver; CatEnd says whether they fit.                                   *)
Asinh(x) == IF FLt(x, "0.0") THEN FNeg(FLog(FAdd(FNeg(x), FSqrt(FAdd("1.0", FMul(x, x))))))
            ELSE FLog(FAdd(x, FSqrt(FAdd("1.0", FMul(x, x)))))
Hyp(x) == FSqrt(FAdd("1.0", FMul(x, x)))
(* place of the material point at s from the lower end *)
CatAt(c, s) ==
  LET va == FSub(c.V, FMul(c.W, c.L))           \* vertical force at the lower end
      vs == FAdd(va, FMul(c.W, s))
      hw == FDiv(c.H, c.W)
      lb == FSub(c.L, FDiv(c.V, c.W))           \* length lying on the bed
      st == FDiv(FMul(c.H, s), c.EA)
  IN IF c.lie /\ FLt(va, "0.0")
     THEN IF FLe(s, lb) THEN <<FAdd(s, st), "0.0">>
          ELSE <<FAdd(FAdd(lb, st), FMul(hw, Asinh(FDiv(vs, c.H)))),
                 FAdd(FMul(hw, FSub(Hyp(FDiv(vs, c.H)), "1.0")), FDiv(FMul(vs, vs), FMul("2.0", FMul(c.W, c.EA))))>>
     ELSE <<FAdd(st, FMul(hw, FSub(Asinh(FDiv(vs, c.H)), Asinh(FDiv(va, c.H))))),
            FAdd(FMul(hw, FSub(Hyp(FDiv(vs, c.H)), Hyp(FDiv(va, c.H)))),
                 FDiv(FMul(s, FAdd(va, FMul("0.5", FMul(c.W, s)))), c.EA))>>

Horiz(a, b) == VNorm(<<FSub(b[1], a[1]), FSub(b[2], a[2])>>)
SubWeight(m, t) == FMul(m.env.g, FSub(t.w, FM3(m.env.rho, FDiv("3.141592653589793", "4.0"), FMul(t.d, t.d))))
LineEA(t) == IF Len(t.EAc) > 0 THEN FDiv(t.EAc[Len(t.EAc)][2], t.EAc[Len(t.EAc)][1]) ELSE t.EA
(* an end touches the bed *)
OnBed(m, p) == FLe(p[3], FMul(FSub("1.0", "1.0E-5"), BedAt(m, p[1], p[2])))
(* a line lying with one end on the bed that is too long to be pulled away from it *)
TooLong(W, EA, XF, ZF, L, lie) ==
  /\ lie /\ FLt("0.0", W)
  /\ LET r == FDiv(EA, W) IN FLe(FAdd(FSub(XF, r), FSqrt(FAdd(FMul(r, r), FMul("2.0", FMul(ZF, r))))), L)

Chord(a, b, n, j) == VAdd(a, VScale(FDiv(FI(j - 1), FI(n)), VSub(b, a)))
(* node j of a line of n segments from a to b, as a catenary *)
CatNode(c, a, b, n, j) ==
  LET up == FLe(a[3], b[3])
      lo == IF up THEN a ELSE b
      hi == IF up THEN b ELSE a
      s == FMul(c.L, FDiv(FI(IF up THEN j - 1 ELSE n + 1 - j), FI(n)))
      p == CatAt(c, s)
      XF == Horiz(lo, hi)
  IN <<FAdd(lo[1], FMul(p[1], FDiv(FSub(hi[1], lo[1]), XF))), FAdd(lo[2], FMul(p[1], FDiv(FSub(hi[2], lo[2]), XF))), FAdd(lo[3], p[2])>>

(* ----------------------- the dynamic relaxation ------------------------ *)
(* tens[k][i]: tension at the upper end of line i after k samples.  It has *)
(* settled after the k-th if no line departs from any of the nine samples  *)
(* before by more than the threshold (slack lines have settled).            *)
Settled(tens, k, th) ==
  /\ k >= 10
  /\ \A i \in 1..Len(tens[k]) : \A j \in 1..9 :
       FLe(FAbs(FSub(tens[k][i], tens[k - j][i])), FMul(th, tens[k - j][i]))
(* number of samples when it stops; 0 if it is still running after all of them *)
StopAt(tens, dt, tmax, th) ==
  LET done(k) == Settled(tens, k, th) \/ FLe(tmax, FMul(FI(k), dt))
      S == {k \in 1..Len(tens) : done(k)}
  IN IF FLe(tmax, "0.0") THEN -1 ELSE IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
(* too close to the threshold to call *)
Doubtful(tens, th) ==
  \E k \in 10..Len(tens) : \E i \in 1..Len(tens[k]) : \E j \in 1..9 :
    /\ FLt("0.0", tens[k - j][i])
    /\ FClose(FAbs(FSub(tens[k][i], tens[k - j][i])), FMul(th, tens[k - j][i]), "1.0E-6", "0.0")

(* ----------------------- the stationary solution ----------------------- *)
(* how far from equilibrium: accelerations of whatever is free to move *)
Out(f, M) == VNorm(MSolve(M, f))
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i > Len(s) THEN "0.0" ELSE FAdd(s[i], SumTo(s, i + 1))
Residual(m, o) ==
  LET ln(i) == [j \in 1..(m.lines[i].n - 1) |-> Out(o.line[i].f[j + 1], o.line[i].m[j + 1])]
      pt == SelectSeq([i \in 1..Len(m.points) |-> i], LAMBDA i : m.points[i].k = "free")
      all == Flat([i \in 1..Len(m.lines) |-> ln(i)]) \o [i \in 1..Len(pt) |-> Out(o.point[pt[i]].f, o.point[pt[i]].m)]
  IN SumTo(TLCEval(all), 1)
=============================================================================
