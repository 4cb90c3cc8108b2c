------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Unbounded naturals for TLC, whose own integers are 32 bits.             *)
(*                                                                         *)
(* A BigNat is a little-endian sequence of base-256 digits without         *)
(* trailing zeros: <<>> is 0, <<1, 2>> is 513.  Every operator is defined  *)
(* here in plain TLA+; spec/java/BigNat.java evaluates the same operators  *)
(* with java.math.BigInteger (TLC loads it as a module override), because  *)
(* the definitions below are slow to interpret.  MC_Self compares the two. *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL MaxOf(x, y) == IF x > y THEN x ELSE y

RECURSIVE BNorm(_)
BNorm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BFromInt(_)
BFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BFromInt(n \div 256)

\* Only for values below 2^31.
RECURSIVE BToInt(_)
BToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * BToInt(Tail(a))

LOCAL Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BFromLE(bytes) == BNorm(bytes)
BFromBE(bytes) == BNorm(Rev(bytes))
\* n must be at least Len(a)
BToLE(a, n) == [i \in 1..n |-> Digit(a, i)]
BToBE(a, n) == [i \in 1..n |-> Digit(a, n + 1 - i)]

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF Digit(a, i) > Digit(b, i) THEN 1
  ELSE IF Digit(a, i) < Digit(b, i) THEN -1
  ELSE CmpFrom(a, b, i - 1)
\* -1, 0 or 1
BCmp(a, b) == CmpFrom(a, b, MaxOf(Len(a), Len(b)))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > MaxOf(Len(a), Len(b)) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == Digit(a, i) + Digit(b, i) + carry
       IN <<t % 256>> \o AddFrom(a, b, i + 1, t \div 256)
BAdd(a, b) == BNorm(AddFrom(a, b, 1, 0))

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == Digit(a, i) - Digit(b, i) - borrow
       IN <<IF t < 0 THEN t + 256 ELSE t>> \o SubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
\* a - b for a >= b
BSub(a, b) == BNorm(SubFrom(a, b, 1, 0))

RECURSIVE MulSmallFrom(_, _, _, _)
MulSmallFrom(a, d, i, carry) ==
  IF i > Len(a) THEN BFromInt(carry)
  ELSE LET t == a[i] * d + carry IN <<t % 256>> \o MulSmallFrom(a, d, i + 1, t \div 256)
RECURSIVE BMul(_, _)
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE BAdd(BNorm(MulSmallFrom(a, Head(b), 1, 0)),
            LET rest == BMul(a, Tail(b)) IN IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)

\* Long division, one base-256 digit at a time from the most significant one.
RECURSIVE QDigit(_, _, _)
QDigit(r, b, q) == IF BCmp(r, b) < 0 THEN <<q, r>> ELSE QDigit(BSub(r, b), b, q + 1)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
  IF i = 0 THEN <<BNorm(q), r>>
  ELSE LET qr == QDigit(BNorm(<<a[i]>> \o r), b, 0)
       IN DivFrom(a, b, i - 1, <<qr[1]>> \o q, qr[2])
\* <<a \div b, a % b>> for b # 0
BDivMod(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>)
BDiv(a, b) == BDivMod(a, b)[1]
BMod(a, b) == BDivMod(a, b)[2]

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE BMul(a, BPow(a, n - 1))
BPow2(n) == BPow(<<2>>, n)

RECURSIVE BPowMod(_, _, _)
BPowMod(a, e, m) ==
  IF e = <<>> THEN BMod(<<1>>, m)
  ELSE LET qr == BDivMod(e, <<2>>)
           h == BPowMod(BMod(BMul(a, a), m), qr[1], m)
       IN IF qr[2] = <<>> THEN h ELSE BMod(BMul(a, h), m)
\* Inverse modulo an odd prime
BInvMod(a, p) == BPowMod(a, BSub(p, <<2>>), p)

\* Number of significant bits
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BBitLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + BitsOf(a[Len(a)])

RECURSIVE BDecDigits(_)
LOCAL DigitStr(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
BDecDigits(a) == IF a = <<>> THEN ""
                 ELSE LET qr == BDivMod(a, <<10>>)
                      IN BDecDigits(qr[1]) \o DigitStr(IF qr[2] = <<>> THEN 0 ELSE qr[2][1])
\* Decimal text
BDec(a) == IF a = <<>> THEN "0" ELSE BDecDigits(a)

BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
BMax(a, b) == IF BLe(a, b) THEN b ELSE a
RECURSIVE BSum(_)
BSum(s) == IF s = <<>> THEN <<>> ELSE BAdd(Head(s), BSum(Tail(s)))
=============================================================================
