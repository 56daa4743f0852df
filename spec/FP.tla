-------------------------------- MODULE FP --------------------------------
(***************************************************************************)
(* IEEE double precision numbers.  A number is a string holding a decimal  *)
(* that round-trips to the double, e.g. "0.1" or "-1.5E-7"; equality of    *)
(* normalised strings is equality of doubles.  The operators are evaluated *)
(* by the Java class FP (spec/java/FP.java); the bodies below are never    *)
(* used by TLC.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

F(s)          == CHOOSE x \in STRING : TRUE   \* normalise a numeral
FI(i)         == CHOOSE x \in STRING : TRUE   \* integer -> number
FInt(a)       == CHOOSE x \in Int : TRUE      \* floor, as a TLA+ integer
FAdd(a, b)    == CHOOSE x \in STRING : TRUE
FSub(a, b)    == CHOOSE x \in STRING : TRUE
FMul(a, b)    == CHOOSE x \in STRING : TRUE
FDiv(a, b)    == CHOOSE x \in STRING : TRUE
FNeg(a)       == CHOOSE x \in STRING : TRUE
FAbs(a)       == CHOOSE x \in STRING : TRUE
FSqrt(a)      == CHOOSE x \in STRING : TRUE
FSin(a)       == CHOOSE x \in STRING : TRUE
FCos(a)       == CHOOSE x \in STRING : TRUE
FTan(a)       == CHOOSE x \in STRING : TRUE
FAsin(a)      == CHOOSE x \in STRING : TRUE
FAcos(a)      == CHOOSE x \in STRING : TRUE
FAtan2(a, b)  == CHOOSE x \in STRING : TRUE
FTanh(a)      == CHOOSE x \in STRING : TRUE
FExp(a)       == CHOOSE x \in STRING : TRUE
FLog(a)       == CHOOSE x \in STRING : TRUE
FMax(a, b)    == CHOOSE x \in STRING : TRUE
FMin(a, b)    == CHOOSE x \in STRING : TRUE
FLt(a, b)     == CHOOSE x \in BOOLEAN : TRUE
FLe(a, b)     == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b)     == CHOOSE x \in BOOLEAN : TRUE
FIsNum(s)     == CHOOSE x \in BOOLEAN : TRUE  \* s parses as a number
FFinite(a)    == CHOOSE x \in BOOLEAN : TRUE
(* |a-b| <= atol + rtol*max(|a|,|b|); FALSE if either is not finite        *)
FClose(a, b, rtol, atol) == CHOOSE x \in BOOLEAN : TRUE

(* words *)
SUpper(s)     == CHOOSE x \in STRING : TRUE   \* in capital letters
SHas(s, t)    == CHOOSE x \in BOOLEAN : TRUE  \* t is a part of s

(* vectors: sequences of numbers *)
VAdd(u, v)    == CHOOSE x \in Seq(STRING) : TRUE
VSub(u, v)    == CHOOSE x \in Seq(STRING) : TRUE
VScale(k, v)  == CHOOSE x \in Seq(STRING) : TRUE
VDot(u, v)    == CHOOSE x \in STRING : TRUE
VCross(u, v)  == CHOOSE x \in Seq(STRING) : TRUE
VNorm(v)      == CHOOSE x \in STRING : TRUE
VUnit(v)      == CHOOSE x \in Seq(STRING) : TRUE  \* v/|v|, or v if |v|=0
VMaxAbs(v)    == CHOOSE x \in STRING : TRUE
VSum(v)       == CHOOSE x \in STRING : TRUE
(* componentwise closeness against a common scale:                         *)
(*   |u_i-v_i| <= atol + rtol*max(max|u|,max|v|)                           *)
VClose(u, v, rtol, atol) == CHOOSE x \in BOOLEAN : TRUE

(* square matrices, row major, as sequences of n*n numbers *)
MVec(m, v)    == CHOOSE x \in Seq(STRING) : TRUE
MMul(a, b)    == CHOOSE x \in Seq(STRING) : TRUE
MTrans(a)     == CHOOSE x \in Seq(STRING) : TRUE
MSolve(m, v)  == CHOOSE x \in Seq(STRING) : TRUE  \* m^-1 v
=============================================================================
