-------------------------------- MODULE IEEE --------------------------------
(* IEEE-754 double arithmetic for TLC.                                      *)
(* A double is the pair <<hi, lo>> of the signed 32-bit halves of its bit   *)
(* pattern (an integer i is also accepted and stands for the double i), a   *)
(* vector is a sequence of doubles and a matrix the sequence of its rows.   *)
(* The operators are implemented in java/IEEE.java; the definitions below   *)
(* only declare them.                                                       *)
EXTENDS Integers, Sequences

FDec(s)    == CHOOSE r \in {} : TRUE    \* decimal literal "1e-10"
FInt(i)    == CHOOSE r \in {} : TRUE
FFloor(a)  == CHOOSE r \in {} : TRUE
FAdd(a, b) == CHOOSE r \in {} : TRUE
FSub(a, b) == CHOOSE r \in {} : TRUE
FMul(a, b) == CHOOSE r \in {} : TRUE
FDiv(a, b) == CHOOSE r \in {} : TRUE
FNeg(a)    == CHOOSE r \in {} : TRUE
FAbs(a)    == CHOOSE r \in {} : TRUE
FSqrt(a)   == CHOOSE r \in {} : TRUE
FMax(a, b) == CHOOSE r \in {} : TRUE
FMin(a, b) == CHOOSE r \in {} : TRUE
FLe(a, b)  == CHOOSE r \in {} : TRUE    \* false when an operand is NaN
FLt(a, b)  == CHOOSE r \in {} : TRUE
FEq(a, b)  == CHOOSE r \in {} : TRUE
FIsNaN(a)  == CHOOSE r \in {} : TRUE
FFin(a)    == CHOOSE r \in {} : TRUE
FExp(a)    == CHOOSE r \in {} : TRUE
FSin(a)    == CHOOSE r \in {} : TRUE
FCos(a)    == CHOOSE r \in {} : TRUE
FStr(a)    == CHOOSE r \in {} : TRUE

VDot(x, y)     == CHOOSE r \in {} : TRUE
VNorm(x)       == CHOOSE r \in {} : TRUE    \* Euclidean norm
VMaxAbs(x)     == CHOOSE r \in {} : TRUE    \* infinity norm (NaN if an entry is)
VAdd(x, y)     == CHOOSE r \in {} : TRUE
VSub(x, y)     == CHOOSE r \in {} : TRUE
VScale(k, x)   == CHOOSE r \in {} : TRUE
VClip(x, l, u) == CHOOSE r \in {} : TRUE
MVec(m, x)     == CHOOSE r \in {} : TRUE    \* m x
MTVec(m, x)    == CHOOSE r \in {} : TRUE    \* m' x
=============================================================================
