------------------------------- MODULE LineLaw -------------------------------
(***************************************************************************)
(* The load law of a mooring line: the forces and the mass of every node   *)
(* as a function of the line type, of the environment and of the node      *)
(* kinematics at one instant (docs/theory, lumped mass discretisation).    *)
(*                                                                         *)
(* A line description L is a record                                        *)
(*   t : line type  [d, w, EA, BA, EI, Cd, Ca, CdAx, CaAx : number,        *)
(*                   EAc, BAc, EIc : <<<<x, y>>, ...>> (look-up tables)]   *)
(*   t0 : the line type at initialisation (sets the automatic damping)     *)
(*   n : number of segments,  ul : present unstretched length,             *)
(*   ul0 : unstretched length at initialisation                            *)
(* kinematics K  [r, rd : node positions and velocities (n+1),             *)
(*                u, ud : water velocity and acceleration at the nodes,    *)
(*                zeta, pdyn : surface elevation and dynamic pressure,     *)
(*                zb : sea bed height below each node,                     *)
(*                qa, qb : end tangents imposed by a rod, or <<>>,         *)
(*                pb : pressure bending enabled, pin : node pressures]     *)
(* environment E  [g, rho, kb, cb, fc, fd, fs : number]                    *)
(***************************************************************************)
EXTENDS FP, TLC

Pi == "3.141592653589793"
Z3 == <<"0.0", "0.0", "0.0">>

FM3(a, b, c) == FMul(FMul(a, b), c)
FM4(a, b, c, e) == FMul(FMul(a, b), FMul(c, e))
FHalf(a) == FMul("0.5", a)

(* linear interpolation in a table, constant outside of it *)
Interp(tab, x) ==
  LET n == Len(tab) IN
  IF FLe(x, tab[1][1]) THEN tab[1][2]
  ELSE IF FLe(tab[n][1], x) THEN tab[n][2]
  ELSE LET i == CHOOSE j \in 2..n : FLe(x, tab[j][1]) /\ \A k \in 2..(j-1) : FLt(tab[k][1], x)
           f == FDiv(FSub(x, tab[i-1][1]), FSub(tab[i][1], tab[i-1][1]))
       IN  FAdd(tab[i-1][2], FMul(f, FSub(tab[i][2], tab[i-1][2])))

Area(t) == FM3(FDiv(Pi, "4.0"), t.d, t.d)
RhoL(t) == FDiv(t.w, Area(t))

(* stiffness used for the automatic damping: the last point of a table *)
RefEA(t) == IF Len(t.EAc) > 0
            THEN FDiv(t.EAc[Len(t.EAc)][2], t.EAc[Len(t.EAc)][1]) ELSE t.EA

(* internal damping coefficient times area (N s) *)
DampBA(t, n, ul0, rate) ==
  IF Len(t.BAc) > 0
  THEN LET a == FAbs(rate) IN
       IF FLt(t.BAc[1][1], "0.0")
       THEN FDiv(Interp(t.BAc, rate), rate)
       ELSE FDiv(Interp(t.BAc, a), a)
  ELSE IF FLt(t.BA, "0.0")
       THEN FM4(FNeg(t.BA), FDiv(ul0, FI(n)),
                FSqrt(FMul(FDiv(RefEA(t), Area(t)), RhoL(t))), Area(t))
       ELSE t.BA

(* discrete curvature between the unit vectors a and b over length len *)
Curv(len, a, b) ==
  LET c == VDot(a, b) IN
  IF FLt("1.0", FAdd(c, "2.220446049250313E-16")) THEN "0.0"
  ELSE FMul(FDiv("4.0", len), FSqrt(FHalf(FSub("1.0", c))))

(* fraction of a segment below the surface *)
SubFraction(a, b, d, surf) ==
  LET za == FSub(a[3], surf)
      zb == FSub(b[3], surf)
      low == IF FLt(za, "0.0") THEN a ELSE b
      upp == IF FLt(za, "0.0") THEN b ELSE a
      ax == VSub(upp, low)
      nv == VCross(ax, VCross(<<"0.0", "0.0", "1.0">>, ax))
      nz == FMul(VUnit(nv)[3], FHalf(d))
      zl == FAbs(FSub(FSub(low[3], surf), nz))
      zu == FAdd(FSub(upp[3], surf), nz)
  IN IF FLe(za, "0.0") /\ FLt(zb, "0.0") THEN "1.0"
     ELSE IF FLt("0.0", za) /\ FLt("0.0", zb) THEN "0.0"
     ELSE IF FEq(za, FNeg(zb)) THEN "0.5"
     ELSE FDiv(zl, FAdd(zl, zu))

Diag3(m) == <<m, "0.0", "0.0", "0.0", m, "0.0", "0.0", "0.0", m>>
Outer(a, b) == TLCEval([k \in 1..9 |-> FMul(a[((k-1) \div 3) + 1], b[((k-1) % 3) + 1])])

(* sea bed reaction on a node of contact area ar *)
SeabedForce(E, ar, z, zb, v) ==
  IF ~FLt(z, zb) THEN Z3 ELSE
  LET fz == FMul(FSub(FMul(FSub(zb, z), E.kb), FMul(v[3], E.cb)), ar)
      fmax == FMul(FAbs(fz), E.fc)
      vh == FSqrt(FAdd(FMul(v[1], v[1]), FMul(v[2], v[2])))
      f0 == FM3(vh, E.fc, E.fd)
      ff == IF FLt(FMul(E.fs, fmax), f0) THEN fmax ELSE f0
  IN IF FEq(vh, "0.0") THEN <<"0.0", "0.0", fz>>
     ELSE <<FNeg(FDiv(FMul(ff, v[1]), vh)), FNeg(FDiv(FMul(ff, v[2]), vh)), fz>>

(***************************************************************************)
(* All the loads of a line.  Result: record of sequences over the nodes.   *)
(***************************************************************************)
LineLoads(L, K, E) ==
  LET t == L.t
      n == L.n
      l == FDiv(L.ul, FI(n))
      A == Area(t)
      rhoL == RhoL(t)
      r == K.r
      rd == K.rd
      lstr == TLCEval([i \in 1..n |-> VNorm(VSub(r[i+1], r[i]))])
      qs == TLCEval([i \in 1..n |-> VUnit(VSub(r[i+1], r[i]))])
      ld == TLCEval([i \in 1..n |-> VDot(qs[i], VSub(rd[i+1], rd[i]))])
      ei == FLt("0.0", t.EI) \/ Len(t.EIc) > 0
      q == TLCEval([i \in 1..(n+1) |->
              IF i = 1 THEN (IF ei /\ K.qa # <<>> THEN K.qa ELSE qs[1])
              ELSE IF i = n+1 THEN (IF ei /\ K.qb # <<>> THEN K.qb ELSE qs[n])
              ELSE VUnit(VSub(r[i+1], r[i-1]))])
      \* curvature and its binormal; pinned ends carry none
      kur == TLCEval([i \in 1..(n+1) |->
              IF ~(ei \/ K.pb) THEN "0.0"
              ELSE IF i = 1 THEN (IF K.qa # <<>> THEN Curv(lstr[1], q[1], qs[1]) ELSE "0.0")
              ELSE IF i = n+1 THEN (IF K.qb # <<>> THEN Curv(lstr[n], qs[n], q[n+1]) ELSE "0.0")
              ELSE Curv(FAdd(lstr[i-1], lstr[i]), qs[i-1], qs[i])])
      pv == TLCEval([i \in 1..(n+1) |->
              IF FEq(kur[i], "0.0") THEN Z3
              ELSE VUnit(IF i = 1 THEN VCross(q[1], qs[1])
                         ELSE IF i = n+1 THEN VCross(qs[n], q[n+1])
                         ELSE VCross(qs[i-1], qs[i]))])
      kei(i) == IF Len(t.EIc) > 0 THEN Interp(t.EIc, kur[i]) ELSE FMul(t.EI, kur[i])
      \* bending force that node i exerts on node i-1 and on node i+1
      bm(i) == IF ei /\ i > 1 /\ ~FEq(kur[i], "0.0")
               THEN VScale(FDiv(kei(i), lstr[i-1]), VCross(qs[i-1], pv[i])) ELSE Z3
      bp(i) == IF ei /\ i < n+1 /\ ~FEq(kur[i], "0.0")
               THEN VScale(FDiv(kei(i), lstr[i]), VCross(qs[i], pv[i])) ELSE Z3
      bm_ == TLCEval([i \in 1..(n+1) |-> bm(i)])
      bp_ == TLCEval([i \in 1..(n+1) |-> bp(i)])
      bs == TLCEval([i \in 1..(n+1) |->
              VSub(VAdd(IF i < n+1 THEN bm_[i+1] ELSE Z3, IF i > 1 THEN bp_[i-1] ELSE Z3),
                   VAdd(bm_[i], bp_[i]))])
      fr == TLCEval([i \in 1..n |->
              SubFraction(r[i], r[i+1], t.d, FHalf(FAdd(K.zeta[i], K.zeta[i+1])))])
      \* lengths attributed to a node: dry and wet
      len(i) == FHalf(FMul(l, FI(IF i = 1 \/ i = n+1 THEN 1 ELSE 2)))
      wet == TLCEval([i \in 1..(n+1) |-> FHalf(FMul(l,
                 FAdd(IF i > 1 THEN fr[i-1] ELSE "0.0", IF i < n+1 THEN fr[i] ELSE "0.0")))])
      eat(i) == IF Len(t.EAc) > 0 THEN Interp(t.EAc, FSub(FDiv(lstr[i], l), "1.0"))
                ELSE FMul(L.ea, FSub(FDiv(lstr[i], l), "1.0"))
      ten == TLCEval([i \in 1..n |->
               IF FLt(l, lstr[i]) THEN VScale(eat(i), qs[i]) ELSE Z3])
      td == TLCEval([i \in 1..n |->
               LET rate == FDiv(ld[i], l) IN
               IF FEq(rate, "0.0") THEN Z3
               ELSE VScale(FMul(DampBA(L.t0, n, L.ul0, rate), rate), qs[i])])
      seg == TLCEval([i \in 1..n |-> VAdd(ten[i], td[i])])
      W == TLCEval([i \in 1..(n+1) |-> <<"0.0", "0.0",
               FM3(FNeg(E.g), A, FSub(FMul(rhoL, len(i)), FMul(E.rho, wet[i])))>>])
      drag == TLCEval([i \in 1..(n+1) |->
               LET vi == VSub(K.u[i], rd[i])
                   vq == VScale(VDot(vi, q[i]), q[i])
                   vp == VSub(vi, vq)
                   k == FMul(FMul("0.5", E.rho), FMul(t.d, wet[i]))
               IN VAdd(VScale(FM3(k, t.Cd, VNorm(vp)), vp),
                       VScale(FM4(k, t.CdAx, Pi, VNorm(vq)), vq))])
      fk == TLCEval([i \in 1..(n+1) |->
               LET aq == VScale(VDot(K.ud[i], q[i]), q[i])
                   ap == VSub(K.ud[i], aq)
                   m == FM3(E.rho, A, wet[i])
               IN VAdd(VScale(FMul(m, FAdd("1.0", t.Ca)), ap),
                       VScale(FMul(m, FAdd("1.0", t.CaAx)), aq))])
      B == TLCEval([i \in 1..(n+1) |->
               SeabedForce(E, FMul(t.d, len(i)), r[i][3], K.zb[i], rd[i])])
      pb == TLCEval([i \in 1..(n+1) |->
               IF ~K.pb \/ FEq(kur[i], "0.0") THEN Z3 ELSE
               LET h == FMax("0.0", FSub(K.zeta[i], r[i][3]))
                   p == FSub(K.pin[i], FAdd(FM3(E.rho, E.g, h), K.pdyn[i]))
               IN VScale(FMul(FM3(A, len(i), p), kur[i]), VCross(q[i], pv[i]))])
      M == TLCEval([i \in 1..(n+1) |->
               LET m == FM3(A, rhoL, len(i))
                   mw == FM3(E.rho, A, wet[i])
                   Q == Outer(q[i], q[i])
               IN VAdd(VAdd(Diag3(FAdd(m, FMul(mw, t.Ca))), VScale(FMul(mw, FNeg(t.Ca)), Q)),
                       VScale(FMul(mw, t.CaAx), Q))])
      net == TLCEval([i \in 1..(n+1) |->
               VAdd(VAdd(VSub(IF i < n+1 THEN seg[i] ELSE Z3, IF i > 1 THEN seg[i-1] ELSE Z3),
                         VAdd(W[i], drag[i])),
                    VAdd(VAdd(fk[i], B[i]), VAdd(bs[i], pb[i])))])
      nten == TLCEval([i \in 1..(n+1) |->
               IF i = 1 THEN seg[1] ELSE IF i = n+1 THEN seg[n]
               ELSE VScale("0.5", VAdd(seg[i-1], seg[i]))])
  IN [f |-> net, ten |-> nten, bs |-> bs, w |-> W, drag |-> drag, fk |-> fk, b |-> B, pb |-> pb,
      m |-> M, curv |-> kur, seg |-> seg, T |-> ten, Td |-> td, qs |-> qs, q |-> q, lstr |-> lstr,
      ld |-> ld, fr |-> fr, l |-> l]
==============================================================================
