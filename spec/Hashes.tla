------------------------------- MODULE Hashes -------------------------------
(***************************************************************************)
(* Primitives the specification takes as given: cryptographic hash         *)
(* functions, AES on whole blocks, and conversions between TLA+ strings    *)
(* and byte sequences (a byte sequence is a sequence over 0..255).  They   *)
(* are interpreted by spec/java/Hashes.java with the Java standard         *)
(* library (RIPEMD-160 is written out there), independently of the code    *)
(* under test.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Given == CHOOSE x \in {} : TRUE

Hx(s) == Given            \* hex text -> bytes
Hex(b) == Given           \* bytes -> lower-case hex text
IsHex(s) == Given         \* even number of lower-case hex digits
Utf8(s) == Given          \* text -> its UTF-8 bytes
Cps(s) == Given           \* text -> its Unicode code points
FromCps(c) == Given       \* code points -> text
Nfkd(s) == Given          \* Unicode compatibility decomposition of a text
Lower(s) == Given         \* text in lower case
(* UTF-8 bytes -> text, each maximal malformed part replaced by U+FFFD (Unicode 3.9, table 3-7). *)
Utf8Tails(b0) ==          \* how many bytes follow a lead byte, and the range of the first of them
  CASE b0 \in 194 .. 223 -> <<1, 128, 191>>  [] b0 = 224 -> <<2, 160, 191>>  [] b0 = 237 -> <<2, 128, 159>>
    [] b0 \in 225 .. 239 -> <<2, 128, 191>>  [] b0 = 240 -> <<3, 144, 191>>  [] b0 = 244 -> <<3, 128, 143>>
    [] b0 \in 241 .. 243 -> <<3, 128, 191>>  [] OTHER -> <<0, 0, 0>>
Utf8At(b, i) ==           \* <<code point, bytes taken>>
  LET t == Utf8Tails(b[i])
      Good(k) == i + k <= Len(b) /\ b[i + k] \in (IF k = 1 THEN t[2] .. t[3] ELSE 128 .. 191)
      have == IF t[1] >= 1 /\ Good(1) THEN (IF t[1] >= 2 /\ Good(2) THEN (IF t[1] = 3 /\ Good(3) THEN 3 ELSE 2) ELSE 1) ELSE 0
      C(k) == b[i + k] - 128
  IN IF b[i] < 128 THEN <<b[i], 1>>
     ELSE IF t[1] = 0 \/ have < t[1] THEN <<65533, 1 + have>>
     ELSE IF t[1] = 1 THEN <<(b[i] - 192) * 64 + C(1), 2>>
     ELSE IF t[1] = 2 THEN <<((b[i] - 224) * 64 + C(1)) * 64 + C(2), 3>>
     ELSE <<(((b[i] - 240) * 64 + C(1)) * 64 + C(2)) * 64 + C(3), 4>>
RECURSIVE Utf8Points(_, _, _)
Utf8Points(b, i, points) ==
  IF i > Len(b) THEN points
  ELSE CHOOSE r \in {Utf8Points(b, i + s[2], Append(points, s[1])) : s \in {Utf8At(b, i)}} : TRUE
FromUtf8(b) == FromCps(Utf8Points(b, 1, <<>>))
\* position of the first element equal to a text, or 0
IndexIn(list, s) == IF \E k \in DOMAIN list : list[k] = s
                    THEN CHOOSE k \in DOMAIN list : list[k] = s /\ \A j \in 1 .. k - 1 : list[j] # s ELSE 0
Reverse(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
Join(texts, separator) == Given
Fill(v, n) == [i \in 1..n |-> v]

Sha1(b) == Given
Sha256(b) == Given
Sha512(b) == Given
Ripemd160(b) == Given
Sha256d(b) == Sha256(Sha256(b))
Hash160(b) == Ripemd160(Sha256(b))
HmacSha256(key, msg) == Given
HmacSha512(key, msg) == Given
Pbkdf2Sha512(password, salt, iterations) == Given  \* 64 bytes
AesCbcEnc(key, iv, blocks) == Given     \* no padding: Len(blocks) % 16 = 0
AesCbcDec(key, iv, blocks) == Given
=============================================================================
