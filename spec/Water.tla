-------------------------------- MODULE Water --------------------------------
(***************************************************************************)
(* Water kinematics: linear waves, by components or interpolated in a      *)
(* grid of positions and times, and currents.  The kinematics of a place   *)
(* is a vector <<zeta, ux, uy, uz, ax, ay, az, pdyn>>.                     *)
(*                                                                         *)
(* The sea s is what the files next to the input file say:                 *)
(*   wave  "none" | "sum" | "fft" | "elev"                                 *)
(*   comp  sequence of [w, re, im, b] (wave_frequencies.txt)               *)
(*   et, ez, dtw   times and elevations (wave_elevation.txt), dtWave       *)
(*   gx, gy, gz    coordinates of the grid (water_grid.txt)                *)
(*   cur   "none" | "steady" | "dyn" | "4d"                                *)
(*   cx, cy, cz, ct, cv   its coordinates and velocities cv[x][y][z][t]    *)
(*   unify  TRUE when the currents are sampled at the grid of the waves    *)
(***************************************************************************)
EXTENDS LineLaw

Bracket(g, x) ==   \* <<index of the cell's lower side, fraction>>
  LET n == Len(g) IN
  IF n = 1 \/ FLe(x, g[1]) \/ ~FEq(x, x) THEN <<1, "0.0">>   \* nan: not a place
  ELSE IF FLe(g[n], x) THEN <<n-1, "1.0">>
  ELSE LET i == CHOOSE j \in 1..(n-1) : FLe(g[j], x) /\ FLt(x, g[j+1]) IN
       <<i, FDiv(FSub(x, g[i]), FSub(g[i+1], g[i]))>>
Lerp(a, b, f) == FAdd(FMul(a, FSub("1.0", f)), FMul(b, f))

\* linear interpolation as weights: sequence of <<index, weight>>
Weights(g, x) ==
  LET b == Bracket(g, x) IN
  IF FEq(b[2], "0.0") THEN <<<<b[1], "1.0">>>>
  ELSE IF FEq(b[2], "1.0") THEN <<<<b[1] + 1, "1.0">>>>
  ELSE <<<<b[1], FSub("1.0", b[2])>>, <<b[1] + 1, b[2]>>>>
WSum(s, W(_)) == IF Len(s) = 1 THEN VScale(s[1][2], W(s[1][1]))
                 ELSE VAdd(VScale(s[1][2], W(s[1][1])), VScale(s[2][2], W(s[2][1])))

(* ------------------------------ dispersion ----------------------------- *)
(* k tanh(k h) = w^2 / g *)
RECURSIVE Newton(_, _, _, _)
Newton(k, a, h, n) ==
  IF n = 0 THEN k
  ELSE LET th == FTanh(FMul(k, h))
           f == FSub(FMul(k, th), a)
           d == FAdd(th, FMul(FMul(k, h), FSub("1.0", FMul(th, th))))
       IN Newton(FSub(k, FDiv(f, d)), a, h, n - 1)
WaveNum(w, g, h) ==
  IF FEq(w, "0.0") THEN "0.0"
  ELSE LET a == FDiv(FMul(w, w), g) IN
       Newton(FDiv(a, FSqrt(FTanh(FMul(a, h)))), a, h, 9)

(* ------------------------------- components ---------------------------- *)
Comp(w, re, im, b, g, h) ==
  [w |-> F(w), k |-> WaveNum(w, g, h), re |-> F(re), im |-> F(im), cb |-> FCos(b), sb |-> FSin(b)]
(* a component at depth z (at most 0) and time t *)
Kin1(c, x, y, z, t, h, rg) ==
  LET ph == FSub(FMul(c.w, t), FMul(c.k, FAdd(FMul(c.cb, x), FMul(c.sb, y))))
      R == FSub(FMul(c.re, FCos(ph)), FMul(c.im, FSin(ph)))
      I == FAdd(FMul(c.re, FSin(ph)), FMul(c.im, FCos(ph)))
  IN IF FEq(c.w, "0.0") THEN <<R, "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", FMul(rg, R)>>
     ELSE
     LET e1 == FExp(FMul(c.k, z))
         e2 == FExp(FNeg(FMul(c.k, FAdd(z, FMul("2.0", h)))))
         e3 == FExp(FNeg(FMul(c.k, FMul("2.0", h))))
         C == FDiv(FAdd(e1, e2), FSub("1.0", e3))
         S == FDiv(FSub(e1, e2), FSub("1.0", e3))
         P == FDiv(FAdd(e1, e2), FAdd("1.0", e3))
         uh == FMul(FMul(c.w, R), C)
         ah == FNeg(FMul(FMul(FMul(c.w, c.w), I), C))
     IN <<R, FMul(uh, c.cb), FMul(uh, c.sb), FNeg(FMul(FMul(c.w, I), S)),
          FMul(ah, c.cb), FMul(ah, c.sb), FNeg(FMul(FMul(FMul(c.w, c.w), R), S)), FMul(FMul(rg, R), P)>>
Z8 == <<"0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>
RECURSIVE KinSum(_, _, _, _, _, _, _)
KinSum(cs, x, y, z, t, h, rg) ==
  IF cs = <<>> THEN Z8 ELSE VAdd(Kin1(cs[1], x, y, z, t, h, rg), KinSum(Tail(cs), x, y, z, t, h, rg))

(* --------------------------- spectra from files ------------------------ *)
RECURSIVE MinGap(_)
MinGap(s) == IF Len(s) = 2 THEN FSub(s[2], s[1]) ELSE FMin(FSub(s[2], s[1]), MinGap(Tail(s)))
(* evenly spaced by the smallest difference, amplitude and direction linear in between *)
Even(s, g, h) ==
  LET ws == [i \in 1..Len(s.comp) |-> F(s.comp[i].w)]
      dw == MinGap(ws)
      n == FInt(FDiv(ws[Len(ws)], dw)) + 1
      at(i, f(_)) == LET b == Bracket(ws, FMul(FI(i - 1), dw)) IN Lerp(f(s.comp[b[1]]), f(s.comp[b[1] + 1]), b[2])
  IN [nt |-> 2 * (n - 1), dt |-> FDiv(FDiv(FMul("2.0", Pi), dw), FI(2 * (n - 1))),
      cs |-> [i \in 1..n |-> Comp(FMul(FI(i - 1), dw), at(i, LAMBDA c : c.re), at(i, LAMBDA c : c.im),
                                  at(i, LAMBDA c : c.b), g, h)]]
(* discrete Fourier transform of the elevations every dtw seconds; nothing above half a hertz *)
RECURSIVE DftR(_, _, _)
DftR(e, q, j) == IF j = Len(e) THEN "0.0" ELSE FAdd(FMul(e[j+1], FCos(FMul(q, FI(j)))), DftR(e, q, j + 1))
RECURSIVE DftI(_, _, _)
DftI(e, q, j) == IF j = Len(e) THEN "0.0" ELSE FSub(DftI(e, q, j + 1), FMul(e[j+1], FSin(FMul(q, FI(j)))))
Elev(s, g, h) ==
  LET nt0 == FInt(FDiv(s.et[Len(s.et)], s.dtw)) + 1
      nt == nt0 - (nt0 % 2)
      at(j) == LET b == Bracket(s.et, FMul(FI(j - 1), s.dtw)) IN Lerp(s.ez[b[1]], s.ez[b[1] + 1], b[2])
      e == TLCEval([j \in 1..nt |-> at(j)])
      dw == FDiv(FMul("2.0", Pi), FMul(s.dtw, FI(nt)))
      all == [i \in 1..(nt \div 2 + 1) |-> i - 1]
      low == SelectSeq(all, LAMBDA i : FLe(FMul(FI(i), dw), Pi))
      am(i) == FDiv(IF i = 0 \/ 2 * i = nt THEN "1.0" ELSE "2.0", FI(nt))
  IN [nt |-> nt, dt |-> s.dtw,
      cs |-> [j \in 1..Len(low) |-> LET q == FDiv(FMul(FMul("2.0", Pi), FI(low[j])), FI(nt)) IN
                Comp(FMul(FI(low[j]), dw), FMul(am(low[j]), DftR(e, q, 0)), FMul(am(low[j]), DftI(e, q, 0)), "0.0", g, h)]]
Setup(s, g, h) ==
  IF s.wave = "sum"
  \* the elevation is the imaginary part here
  THEN [nt |-> 0, dt |-> "0.0", cs |-> TLCEval([i \in 1..Len(s.comp) |->
          Comp(s.comp[i].w, s.comp[i].im, FNeg(s.comp[i].re), s.comp[i].b, g, h)])]
  ELSE IF s.wave = "fft" THEN TLCEval(Even(s, g, h))
  ELSE IF s.wave = "elev" THEN TLCEval(Elev(s, g, h))
  ELSE [nt |-> 0, dt |-> "0.0", cs |-> <<>>]

(* -------------------------------- currents ----------------------------- *)
CurAt(s, x, y, z, t) ==   \* velocity; linear in between, the nearest outside
  IF s.cur = "none" THEN <<"0.0", "0.0", "0.0">>
  ELSE LET ws == [x |-> Weights(s.cx, x), y |-> Weights(s.cy, y), z |-> Weights(s.cz, z), t |-> Weights(s.ct, t)] IN
       WSum(ws.x, LAMBDA a : WSum(ws.y, LAMBDA b : WSum(ws.z, LAMBDA c : WSum(ws.t, LAMBDA d : s.cv[a][b][c][d]))))
CurKin(s, x, y, z, t) == <<"0.0">> \o CurAt(s, x, y, z, t) \o <<"0.0", "0.0", "0.0", "0.0">>

(* --------------------------------- the sea ----------------------------- *)
(* heights are stretched so the profile goes from the bed, whose height here is b *)
(* and h below the mean surface on average, to the surface                        *)
Stretch(z, zeta, h, b) == FMin("0.0", FSub(FDiv(FMul(h, FSub(z, b)), FSub(zeta, b)), h))

(* grids repeat themselves; between the last sample and the first one of   *)
(* the repetition nothing is specified                                     *)
TimeCell(p, t) == LET q == FDiv(t, p.dt) IN [i |-> FInt(q), f |-> FSub(q, FI(FInt(q)))]
Specified(s, p, t) == s.wave \notin {"fft", "elev"} \/ TimeCell(p, t).i % p.nt # p.nt - 1

GridKin(s, p, x, y, z, t, h, b0, rg) ==
  LET c == TimeCell(p, t)
      j == c.i % p.nt
      tw == IF FEq(c.f, "0.0") THEN <<<<j, "1.0">>>> ELSE <<<<j, FSub("1.0", c.f)>>, <<j + 1, c.f>>>>
      xw == Weights(s.gx, x)
      yw == Weights(s.gy, y)
      node(a, b, zz, d) ==
        LET w == KinSum(p.cs, s.gx[a], s.gy[b], zz, FMul(FI(d), p.dt), h, rg) IN
        IF s.cur # "none" /\ s.unify THEN VAdd(w, CurKin(s, s.gx[a], s.gy[b], zz, FMul(FI(d), p.dt))) ELSE w
      zeta == WSum(xw, LAMBDA a : WSum(yw, LAMBDA b : WSum(tw, LAMBDA d : node(a, b, "0.0", d))))[1]
      zw == Weights(s.gz, Stretch(z, zeta, h, b0))
      all == WSum(xw, LAMBDA a : WSum(yw, LAMBDA b : WSum(zw, LAMBDA e : WSum(tw, LAMBDA d : node(a, b, s.gz[e], d)))))
  IN <<zeta>> \o Tail(all)

SeaAt(s, p, pos, t, h, b, rg) ==
  LET x == pos[1]
      y == pos[2]
      z == pos[3]
      still == CurKin(s, x, y, z, t) IN
  IF s.wave = "sum" THEN
    LET zeta == KinSum(p.cs, x, y, "0.0", t, h, rg)[1]
        a == KinSum(p.cs, x, y, Stretch(z, zeta, h, b), t, h, rg)
    IN VAdd([a EXCEPT ![8] = "0.0"], still)     \* no dynamic pressure with this method
  ELSE IF s.wave \in {"fft", "elev"} THEN
    LET a == GridKin(s, p, x, y, z, t, h, b, rg) IN IF s.unify THEN a ELSE VAdd(a, still)
  ELSE still

(* size of the velocities, for tolerances *)
RECURSIVE Size(_)
Size(cs) == IF cs = <<>> THEN "1.0"
            ELSE FAdd(FMul(FAdd("1.0", FMul(cs[1].w, cs[1].w)), FSqrt(FAdd(FMul(cs[1].re, cs[1].re), FMul(cs[1].im, cs[1].im)))),
                      Size(Tail(cs)))
=============================================================================
