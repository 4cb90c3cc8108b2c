------------------------------- MODULE Base64 -------------------------------
(***************************************************************************)
(* Base64 with padding.  Texts are sequences of code points.  Decoding     *)
(* says whether a text is the encoding of some bytes ("good"), cannot be   *)
(* read ("bad"), or is readable but not what encoding would have given     *)
(* ("loose": left-over bits that are not zero, surplus padding).           *)
(***************************************************************************)
EXTENDS Integers, Sequences
B64Char(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Val(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71
             ELSE IF c >= 48 /\ c <= 57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
B64Enc(b) ==
  LET n == Len(b) q == (n + 2) \div 3
      byte(k) == IF k <= n THEN b[k] ELSE 0
      sym(k) == LET g == 3 * ((k - 1) \div 4)
                    v == byte(g + 1) * 65536 + byte(g + 2) * 256 + byte(g + 3)
                IN (v \div (CASE k % 4 = 1 -> 262144 [] k % 4 = 2 -> 4096 [] k % 4 = 3 -> 64 [] OTHER -> 1)) % 64
      pads == 3 * q - n
  IN [k \in 1 .. 4 * q |-> IF k > 4 * q - pads THEN 61 ELSE B64Char(sym(k))]
RECURSIVE BodyLen(_, _)
BodyLen(t, n) == IF n > 0 /\ (n > 0 => t[n] = 61) THEN BodyLen(t, n - 1) ELSE n
B64Dec(t) ==
  LET n == BodyLen(t, Len(t)) pads == Len(t) - n
      need == (4 - (n % 4)) % 4
      val(k) == IF k <= n THEN B64Val(t[k]) ELSE 0
      byte(k) == LET g == 4 * ((k - 1) \div 3)
                     v == val(g + 1) * 262144 + val(g + 2) * 4096 + val(g + 3) * 64 + val(g + 4)
                 IN (v \div (CASE k % 3 = 1 -> 65536 [] k % 3 = 2 -> 256 [] OTHER -> 1)) % 256
      bytes == [k \in 1 .. (n * 3) \div 4 |-> byte(k)]
  IN IF (\E k \in 1..n : B64Val(t[k]) < 0) \/ n % 4 = 1 \/ pads < need THEN [is |-> "bad", v |-> <<>>]
     ELSE [is |-> IF B64Enc(bytes) = t THEN "good" ELSE "loose", v |-> bytes]
=============================================================================
