------------------------------ MODULE RigidLaw ------------------------------
(***************************************************************************)
(* Load and inertia laws of points, rods and bodies, and the rigid-body    *)
(* kinematics which ties attached objects to them.                         *)
(***************************************************************************)
EXTENDS LineLaw

(* -------------------------- linear algebra ----------------------------- *)
Sub3(v) == SubSeq(v, 1, 3)
Tail3(v) == SubSeq(v, 4, 6)
RotX(a) == LET c == FCos(a) s == FSin(a) IN
           <<"1.0", "0.0", "0.0", "0.0", c, FNeg(s), "0.0", s, c>>
RotY(a) == LET c == FCos(a) s == FSin(a) IN
           <<c, "0.0", s, "0.0", "1.0", "0.0", FNeg(s), "0.0", c>>
RotZ(a) == LET c == FCos(a) s == FSin(a) IN
           <<c, FNeg(s), "0.0", s, c, "0.0", "0.0", "0.0", "1.0">>
(* orientation of a body with roll, pitch, yaw (intrinsic x-y-z), radians *)
RotXYZ(e) == MMul(MMul(RotX(e[1]), RotY(e[2])), RotZ(e[3]))
Deg2Rad(d) == FMul(d, FDiv(Pi, "180.0"))

Blocks(a, b, c, d) ==    \* 6x6 row-major matrix from 3x3 blocks
  TLCEval([k \in 1..36 |->
    LET i == (k-1) \div 6  j == (k-1) % 6 IN
    IF i < 3 /\ j < 3 THEN a[3*i + j + 1]
    ELSE IF i < 3 THEN b[3*i + (j-3) + 1]
    ELSE IF j < 3 THEN c[3*(i-3) + j + 1]
    ELSE d[3*(i-3) + (j-3) + 1]])
Block(m, bi, bj) ==      \* 3x3 block of a 6x6 matrix
  TLCEval([k \in 1..9 |-> m[6*(3*bi + ((k-1) \div 3)) + 3*bj + ((k-1) % 3) + 1]])
Z36 == [k \in 1..36 |-> "0.0"]
Z9 == [k \in 1..9 |-> "0.0"]
Z6 == [k \in 1..6 |-> "0.0"]
(* H(r) a = a x r *)
AltM(r) == <<"0.0", r[3], FNeg(r[2]), FNeg(r[3]), "0.0", r[1], r[2], FNeg(r[1]), "0.0">>
(* inertia about a reference point of a nodal mass m at offset r *)
ShiftMass(r, m) ==
  LET H == AltM(r) mh == MMul(m, H) IN
  Blocks(m, mh, MTrans(mh), MMul(MMul(H, m), MTrans(H)))
ShiftMass6(r, M) ==
  LET H == AltM(r) m == Block(M, 0, 0) J == Block(M, 0, 1) I == Block(M, 1, 1)
      j2 == VAdd(MMul(m, H), J) IN
  Blocks(m, j2, MTrans(j2),
         VAdd(VAdd(MMul(MMul(H, m), MTrans(H)), MMul(MTrans(J), H)),
              VAdd(MMul(MTrans(H), J), I)))
RotMass(R, m) == MMul(MMul(R, m), MTrans(R))
RotMass6(R, M) == LET j == RotMass(R, Block(M, 1, 0)) IN
  Blocks(RotMass(R, Block(M, 0, 0)), MTrans(j), j, RotMass(R, Block(M, 1, 1)))
(* a force at offset r seen from the reference point *)
Wrench(r, f) == f \o VCross(r, f)

RECURSIVE VSumSeq(_, _)
VSumSeq(s, z) == IF s = <<>> THEN z ELSE VAdd(Head(s), VSumSeq(Tail(s), z))

(* ------------------------------ kinematics ----------------------------- *)
(* material point at rel (body frame) of a body at pos, R, v, w *)
CarriedPos(pos, R, rel) == VAdd(pos, MVec(R, rel))
CarriedVel(v, w, R, rel) == VAdd(v, VCross(w, MVec(R, rel)))

(* -------------------------------- points ------------------------------- *)
(* P [mass, vol, CdA, Ca], u water velocity, rd velocity,
   ends : << [f, m] >> loads and masses of the attached line ends *)
PointLoads(P, u, rd, ends, E) ==
  LET vi == VSub(u, rd)
      own == <<"0.0", "0.0", FMul(E.g, FSub(FMul(P.vol, E.rho), P.mass))>>
      drg == VScale(FM4("0.5", E.rho, P.CdA, VNorm(vi)), vi)
  IN [f |-> VAdd(VAdd(own, drg), VSumSeq([i \in 1..Len(ends) |-> ends[i].f], Z3)),
      m |-> VAdd(Diag3(FAdd(P.mass, FM3(P.vol, E.rho, P.Ca))),
                 VSumSeq([i \in 1..Len(ends) |-> ends[i].m], Z9))]

(* --------------------------------- rods -------------------------------- *)
(* R [t : [d, w, Cd, Ca, CdEnd, CaEnd], n, len], node kinematics r, rd,     *)
(* water u, ud, zeta, pdyn, sea bed height zb (n+1 each); endsA, endsB as  *)
(* for points.  Loads and inertia about end A.                             *)
RodLoads(R, r, rd, u, ud, zeta, pdyn, zb, endsA, endsB, E) ==
  LET t == R.t
      n == R.n
      Ar == Area(t)
      rho == RhoL(t)
      q == VUnit(VSub(r[n+1], r[1]))
      hl == FSqrt(FAdd(FMul(q[1], q[1]), FMul(q[2], q[2])))
      sinP == hl
      cosP == q[3]
      beta == IF FLt(hl, "1.0E-6") THEN "0.0" ELSE FAtan2(q[2], q[1])
      sinB == FSin(beta)
      cosB == FCos(beta)
      zs == zeta[n+1]
      dl == FDiv(R.len, FI(n))
      za == r[1][3]
      zz == r[n+1][3]
      h0 == IF FLt(za, zs) /\ FLt(zz, zs) THEN R.len
            ELSE IF FLt(za, zs) /\ FLt(zs, zz) THEN FDiv(FSub(zs, za), q[3])
            ELSE IF FLt(zz, zs) /\ FLt(zs, za) THEN FNeg(FDiv(FSub(zs, za), q[3]))
            ELSE "0.0"
      nl(i) == IF i = 1 \/ i = n+1 THEN FHalf(dl) ELSE dl
      start(i) == IF i = 1 THEN "0.0" ELSE FMul(dl, FSub(FI(i - 1), "0.5"))
      \* wet part of the length of a node, measured along the axis
      vof0(i) == IF FLt(h0, "0.0")
                 THEN IF FLe(FNeg(h0), start(i)) THEN "1.0"
                      ELSE IF FLt(FNeg(h0), FAdd(start(i), nl(i)))
                      THEN FDiv(FAdd(FAdd(start(i), nl(i)), h0), nl(i)) ELSE "0.0"
                 ELSE IF FLe(FAdd(start(i), nl(i)), FMul(h0, "1.0000000001")) THEN "1.0"
                      ELSE IF FLt(start(i), h0) THEN FDiv(FSub(h0, start(i)), nl(i)) ELSE "0.0"
      zlo(i) == FSub(r[i][3], FM3("0.5", t.d, sinP))
      zhi(i) == FAdd(r[i][3], FM3("0.5", t.d, sinP))
      al(i) == FAcos(FDiv(FMul("2.0", FDiv(FSub(r[i][3], zs), sinP)), t.d))
      sa(i) == FSub(FMul("2.0", al(i)), FSin(FMul("2.0", al(i))))
      wetA == TLCEval([i \in 1..(n+1) |->
               IF FLt(zs, zlo(i)) THEN "0.0" ELSE IF FLt(zhi(i), zs) THEN Ar
               ELSE IF FLt(sinP, "0.001") THEN "0.5"
               ELSE FMul(FDiv(FMul(t.d, t.d), "8.0"), sa(i))])
      zA == TLCEval([i \in 1..(n+1) |->
               IF FLt(zs, zlo(i)) THEN "0.0" ELSE IF FLt(zhi(i), zs) THEN r[i][3]
               ELSE IF FLt(sinP, "0.001") THEN "0.0"
               ELSE LET s == FSin(al(i)) IN
                    FSub(r[i][3], FDiv(FM3(FMul("0.6666666666", t.d), s, FMul(s, s)), sa(i)))])
      vof == TLCEval([i \in 1..(n+1) |->
               FAdd(FM3(vof0(i), cosP, cosP), FM3(FDiv(wetA[i], Ar), sinP, sinP))])
      vol(i) == FMul(Ar, nl(i))
      mass(i) == FM3(Ar, nl(i), rho)
      Q == Outer(q, q)
      Vend == FM4(FDiv("2.0", "3.0"), Pi, FMul(t.d, t.d), FDiv(t.d, "8.0"))
      endwet(i) == (i = 1 \/ i = n+1) /\ FLt(zlo(i), zs)
      k1(i) == FMul(vof[i], E.rho)
      \* radial buoyancy of the side and buoyancy of the caps
      side(i) == LET f == FNeg(FM4(k1(i), vol(i), E.g, sinP)) IN
                 <<FM3(f, cosB, cosP), FM3(f, sinB, cosP), FNeg(FMul(f, sinP))>>
      cap(i) == LET f == FMul(IF i = 1 THEN "-1.0" ELSE "1.0", FM4(k1(i), Ar, E.g, zA[i])) IN
                <<FM3(f, cosB, sinP), FM3(f, sinB, sinP), FMul(f, cosP)>>
      vi(i) == VSub(u[i], rd[i])
      vq(i) == VScale(VDot(vi(i), q), q)
      vp(i) == VSub(vi(i), vq(i))
      aq(i) == VScale(VDot(ud[i], q), q)
      ap(i) == VSub(ud[i], aq(i))
      bed(i) == IF FLt(r[i][3], zb[i])
                THEN <<"0.0", "0.0", FMul(FSub(FMul(FSub(zb[i], r[i][3]), E.kb), FMul(rd[i][3], E.cb)),
                                          FMul(t.d, nl(i)))>>
                ELSE Z3
      f0(i) == VAdd(VAdd(VAdd(<<"0.0", "0.0", FNeg(FMul(mass(i), E.g))>>, side(i)),
                         VScale(FM4(FMul("0.5", k1(i)), t.Cd, FMul(t.d, nl(i)), VNorm(vp(i))), vp(i))),
                    VAdd(VScale(FM3(k1(i), FAdd("1.0", t.Ca), vol(i)), ap(i)), bed(i)))
      fe(i) == IF ~endwet(i) THEN Z3 ELSE
               VAdd(VAdd(cap(i), VScale(FM4(FMul("0.5", k1(i)), Ar, t.CdEnd, VNorm(vq(i))), vq(i))),
                    VAdd(VScale(FM3(k1(i), t.CaEnd, Vend), aq(i)),
                         VScale(FMul(IF i = 1 THEN "1.0" ELSE "-1.0",
                                     FM3(vof[i], Ar, pdyn[i])), q)))
      lines(i) == (IF i = 1 THEN endsA ELSE <<>>) \o (IF i = n+1 THEN endsB ELSE <<>>)
      fn == TLCEval([i \in 1..(n+1) |->
               VAdd(VAdd(f0(i), fe(i)),
                    VSumSeq([j \in 1..Len(lines(i)) |-> lines(i)[j].f], Z3))])
      mn == TLCEval([i \in 1..(n+1) |->
               VAdd(VAdd(Diag3(FAdd(mass(i), FM3(k1(i), vol(i), t.Ca))),
                         VScale(FSub(IF endwet(i) THEN FM3(k1(i), t.CaEnd, Vend) ELSE "0.0",
                                     FM3(k1(i), vol(i), t.Ca)), Q)),
                    VSumSeq([j \in 1..Len(lines(i)) |-> lines(i)[j].m], Z9))])
      d4 == FM4(t.d, t.d, t.d, t.d)
      mcap(i) == IF ~endwet(i) THEN Z3 ELSE
                 LET m == FM4(FMul(IF i = 1 THEN "-1.0" ELSE "1.0", k1(i)),
                              FDiv(Pi, "64.0"), d4, FMul(E.g, sinP)) IN
                 <<FMul(m, sinB), FNeg(FMul(m, cosB)), "0.0">>
      mwp == IF FLt(za, zs) /\ FLt(zs, zz)
             THEN LET m == FM4(FDiv(Pi, "16.0"), d4, FMul(E.rho, E.g), FMul(sinP, cosP)) IN
                  <<FMul(m, sinB), FNeg(FMul(m, cosB)), "0.0">>
             ELSE Z3
      f6 == VSumSeq([i \in 1..(n+1) |-> Wrench(VSub(r[i], r[1]), fn[i])],
                    <<"0.0", "0.0", "0.0">> \o VAdd(mwp, VAdd(mcap(1), mcap(n+1))))
      mtot == FM3(R.len, Ar, rho)
      rad == FHalf(t.d)
      ir == FMul(mtot, FSub(FDiv(FMul(rad, rad), "4.0"),
                            FDiv(FMul(R.len, R.len), FMul("6.0", FI(n * n)))))
      ilong == FM3(FHalf(mtot), rad, rad)
      OR == MMul(RotZ(beta), RotY(FAtan2(hl, q[3])))
      Iloc == RotMass(OR, <<ir, "0.0", "0.0", "0.0", ir, "0.0", "0.0", "0.0", ilong>>)
      m6 == VSumSeq([i \in 1..(n+1) |-> ShiftMass(VSub(r[i], r[1]), mn[i])],
                    Blocks(Z9, Z9, Z9, Iloc))
  IN [f |-> f6, m |-> m6, fn |-> fn, mn |-> mn, vof |-> vof, q |-> q]

(* -------------------------------- bodies ------------------------------- *)
(* B [mass, vol : number, cg, I : 3, CdA, Ca : 6] (zero for bodies driven   *)
(* in all their degrees of freedom); pos, R, v6; u water velocity;         *)
(* pts : << [r, f, m] >>; rods : << [r, f, m, nr, mn] >>                    *)
BodyOwnMass(B, E) ==
  VAdd(ShiftMass6(B.cg, Blocks(Diag3(B.mass), Z9, Z9,
                  <<B.I[1], "0.0", "0.0", "0.0", B.I[2], "0.0", "0.0", "0.0", B.I[3]>>)),
       [k \in 1..36 |-> IF ((k-1) \div 6) = ((k-1) % 6)
                        THEN FM3(B.vol, E.rho, B.Ca[((k-1) \div 6) + 1]) ELSE "0.0"])
DiagR(R, c) == RotMass(R, <<c[1], "0.0", "0.0", "0.0", c[2], "0.0", "0.0", "0.0", c[3]>>)
Centri(m, w, rel) == VScale("-1.0", MVec(m, VCross(w, VCross(w, rel))))
BodyLoads(B, pos, R, v6, u, pts, rods, E) ==
  LET v == Sub3(v6)
      w == Tail3(v6)
      M1 == RotMass6(R, BodyOwnMass(B, E))
      cg == MVec(R, B.cg)
      fg == <<"0.0", "0.0", FMul(E.g, FSub(FMul(B.vol, E.rho), B.mass))>>
      vt == VSub(u, v)
      vr == VScale("-1.0", w)
      own == VAdd(VAdd(fg, Centri(Block(M1, 0, 0), w, cg)),
                  VScale(FM3("0.5", E.rho, VNorm(vt)), MVec(DiagR(R, Sub3(B.CdA)), vt)))
      ownm == VAdd(VCross(cg, fg),
                   VScale(FM3("0.5", E.rho, VNorm(vr)), MVec(DiagR(R, Tail3(B.CdA)), vr)))
      pf(p) == VAdd(Wrench(VSub(p.r, pos), p.f), Centri(p.m, w, VSub(p.r, pos)) \o Z3)
      rf(p) == LET rel == VSub(p.r, pos) IN
               VAdd(VAdd(p.f, Z3 \o VCross(rel, Sub3(p.f))),
                    VSumSeq([i \in 1..Len(p.nr) |-> Centri(p.mn[i], w, VSub(p.nr[i], pos))], Z3) \o Z3)
  IN [f |-> VAdd(VSumSeq([i \in 1..Len(pts) |-> pf(pts[i])], own \o ownm),
                 VSumSeq([i \in 1..Len(rods) |-> rf(rods[i])], Z6)),
      m |-> VAdd(VSumSeq([i \in 1..Len(pts) |-> ShiftMass(VSub(pts[i].r, pos), pts[i].m)], M1),
                 VSumSeq([i \in 1..Len(rods) |-> ShiftMass6(VSub(rods[i].r, pos), rods[i].m)], Z36))]
(* reaction reported for a body or rod driven with acceleration a6 *)
CoupledReaction(f, m, a6) == VSub(f, MVec(m, a6))
PinnedReaction(f, m, a6) ==
  VSub(Sub3(f), VAdd(MVec(Block(m, 0, 0), Sub3(a6)), MVec(Block(m, 0, 1), Tail3(a6)))) \o Z3
=============================================================================
