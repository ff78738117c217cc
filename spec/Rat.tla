-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact arithmetic.  TLC's integers have 32 bits, so numbers are strings: *)
(* "3", "-1/3", "1.25e-3", or the hexadecimal form of a double as recorded *)
(* in traces ("0x1.8p+1"); also "inf", "-inf" and "nan".                   *)
(*                                                                         *)
(* The operators are evaluated by the Java module override java/Rat.java   *)
(* (TLC loads the class Rat when it is on the classpath).  Results are     *)
(* exact rationals up to 1200 bits, and rounded to 400 significant bits    *)
(* beyond that.  Comparisons with "nan" are false.  The definitions below  *)
(* only fix the signatures.                                                *)
(***************************************************************************)
LOCAL INSTANCE TLC

LOCAL NoOverride == Assert(FALSE, "module override Rat.class is not on the classpath")

RAdd(a, b) == NoOverride
RSub(a, b) == NoOverride
RMul(a, b) == NoOverride
RDiv(a, b) == NoOverride
RNeg(a) == NoOverride
RAbs(a) == NoOverride
RLt(a, b) == NoOverride
RLe(a, b) == NoOverride
REq(a, b) == NoOverride
RIsNum(a) == NoOverride      \* finite
RIsNan(a) == NoOverride
RSign(a) == NoOverride       \* -1, 0 or 1 (an integer)
RMax(a, b) == NoOverride
RMin(a, b) == NoOverride
RRoot(a, k) == NoOverride    \* k-th root, to about 400 bits
RPow(a, k) == NoOverride     \* k >= 0
RDbl(a) == NoOverride        \* nearest double
RStr(a) == NoOverride        \* decimal string, for messages
RSum(s) == NoOverride        \* of a sequence
RMaxOf(s) == NoOverride      \* of a non-empty sequence
VDot(a, b) == NoOverride     \* vectors are sequences of numbers
VAdd(a, b) == NoOverride
VSub(a, b) == NoOverride
VHad(a, b) == NoOverride     \* component by component
VScale(k, a) == NoOverride
VAbs(a) == NoOverride
MVec(m, a) == NoOverride     \* m: a sequence of rows
VLin(c, vecs, n) == NoOverride  \* \sum_i c[i] * vecs[i], vectors of n components
=============================================================================
