------------------------------- MODULE Dec -------------------------------
(***************************************************************************)
(* Decimal arithmetic on numbers logged by the implementation.             *)
(* A number is an integer, a decimal string ("0.1", "nan", "inf"), or the  *)
(* result of one of these operators.  The bodies below define the meaning  *)
(* on integers; TLC evaluates them by java/Dec.java, which extends the     *)
(* same meaning to 50-digit decimals.  All operators are total: "nan"      *)
(* propagates and every comparison with "nan" is FALSE.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

DNum(a) == a
DAdd(a, b) == a + b
DSub(a, b) == a - b
DMul(a, b) == a * b
DDiv(a, b) == a \div b
DNeg(a) == -a
DAbs(a) == IF a < 0 THEN -a ELSE a
DSqrt(a) == CHOOSE r \in 0..a : r * r = a
RECURSIVE DPowI(_, _)
DPowI(a, n) == IF n = 0 THEN 1 ELSE a * DPowI(a, n - 1)
DLt(a, b) == a < b
DLe(a, b) == a <= b
DEq(a, b) == a = b
DIsNan(a) == FALSE
DIsFin(a) == TRUE
DFloor(a) == a
DStr(a) == "integer"
DPi == 3
DSin(a) == 0
DCos(a) == 1
DMax(a, b) == IF a >= b THEN a ELSE b
DMin(a, b) == IF a <= b THEN a ELSE b
RECURSIVE DSumSeq(_)
DSumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + DSumSeq(Tail(s))
RECURSIVE DDot(_, _)
DDot(s, t) == IF s = <<>> THEN 0 ELSE Head(s) * Head(t) + DDot(Tail(s), Tail(t))

DGe(a, b) == DLe(b, a)
DGt(a, b) == DLt(b, a)
(* |a - b| <= tol, absolutely *)
DNear(a, b, tol) == DLe(DAbs(DSub(a, b)), tol)
(* |a - b| <= tol * max(1, |a|, |b|) *)
DClose(a, b, tol) == DLe(DAbs(DSub(a, b)), DMul(tol, DMax(1, DMax(DAbs(a), DAbs(b)))))
(* the same, with two "nan" counted as close and infinities equal *)
DSame(a, b, tol) == IF DIsNan(a) THEN DIsNan(b)
                    ELSE IF DIsFin(a) /\ DIsFin(b) THEN DClose(a, b, tol) ELSE DEq(a, b)
DSameSeq(s, t, tol) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : DSame(s[j], t[j], tol)
==========================================================================
