------------------------------ MODULE Cashaddr ------------------------------
(***************************************************************************)
(* Cashaddr text: a prefix, ":" and symbols of five bits, the last eight   *)
(* of which are a BCH checksum over GF(32).  Texts are code points.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Hashes

(* GF(32) with a^5 = a^3 + 1, elements as numbers *)
Bit(n, k) == (n \div (2 ^ k)) % 2
XorDef(a, b) == LET x(k) == (Bit(a, k) + Bit(b, k)) % 2 IN x(0) + 2 * x(1) + 4 * x(2) + 8 * x(3) + 16 * x(4)
XorT == [a \in 0..31 |-> [b \in 0..31 |-> XorDef(a, b)]]
Xor(a, b) == XorT[a][b]
TimesA(a) == IF a < 16 THEN 2 * a ELSE Xor(2 * a - 32, 9)
RECURSIVE MulDef(_, _)
MulDef(a, b) == IF b = 0 THEN 0 ELSE XorDef(IF b % 2 = 1 THEN a ELSE 0, MulDef(TimesA(a), b \div 2))
MulT == [a \in 0..31 |-> [b \in 0..31 |-> MulDef(a, b)]]
Gf(a, b) == MulT[a][b]

(* Polynomials modulo g = x^8 + 19x^7 + 3x^6 + 25x^5 + 11x^4 + 25x^3 + 3x^2 + 19x + 1, highest coefficient first *)
G == <<19, 3, 25, 11, 25, 3, 19, 1>>
One == <<0, 0, 0, 0, 0, 0, 0, 1>>
\* r * x + c
Step(r, c) ==
  LET f == r[1] t(k) == Xor(r[k + 1], Gf(f, G[k]))
  IN <<t(1), t(2), t(3), t(4), t(5), t(6), t(7), Xor(c, Gf(f, G[8]))>>
RECURSIVE RemFrom(_, _, _)
RemFrom(r, s, k) == IF k > Len(s) THEN r ELSE RemFrom(Step(r, s[k]), s, k + 1)
Rem(s) == RemFrom(One, s, 1)

Charset == Cps("qpzry9x8gf2tvdw0s3jn54khce6mua7l")
SymT == [c \in 0..127 |-> IF \E k \in 1..32 : Charset[k] = c THEN (CHOOSE k \in 1..32 : Charset[k] = c) - 1 ELSE -1]
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
LowerCp(c) == IF IsUpper(c) THEN c + 32 ELSE c

(* Regrouping of bits *)
BitsOfAll(s, w) == [k \in 1 .. w * Len(s) |-> Bit(s[((k - 1) \div w) + 1], w - 1 - ((k - 1) % w))]
RECURSIVE NumOf(_, _, _)
NumOf(bits, from, to) == IF to < from THEN 0 ELSE 2 * NumOf(bits, from, to - 1) + bits[to]
\* whole groups only
Groups(bits, w) == [k \in 1 .. Len(bits) \div w |-> NumOf(bits, (k - 1) * w + 1, k * w)]
\* symbols of f bits that carry octets of t bits: fewer than f bits of zeros at the end
Unpack(sym, f, t) ==
  LET bits == BitsOfAll(sym, f)
      pad == Len(bits) % t
  IN IF pad >= f \/ \E k \in Len(bits) - pad + 1 .. Len(bits) : bits[k] # 0 THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, v |-> Groups(bits, t)]
Pack(octets, f, t) ==
  LET bits == BitsOfAll(octets, t)
      pad == (f - (Len(bits) % f)) % f
  IN Groups(bits \o [k \in 1..pad |-> 0], f)

RECURSIVE ColonFrom(_, _)
ColonFrom(t, k) == IF k > Len(t) THEN 0 ELSE IF t[k] = 58 THEN k ELSE ColonFrom(t, k + 1)
Sizes == <<20, 24, 28, 32, 40, 48, 56, 64>>
NoCash == [ok |-> FALSE]
\* [ok, prefix as written, kind 0 or 1, hash]
CashDecode(t) ==
  IF \E k \in DOMAIN t : t[k] > 127 THEN NoCash
  ELSE IF (\E k \in DOMAIN t : IsUpper(t[k])) /\ (\E k \in DOMAIN t : IsLower(t[k])) THEN NoCash
  ELSE LET colon == ColonFrom(t, 1)
           low == [k \in DOMAIN t |-> LowerCp(t[k])]
           prefix == SubSeq(t, 1, colon - 1)
           n == Len(t) - colon
       IN IF colon < 2 \/ n < 8 \/ n > 124 \/ (\E k \in DOMAIN prefix : prefix[k] < 33 \/ prefix[k] > 126) THEN NoCash
          ELSE LET sym == [k \in 1..n |-> SymT[low[colon + k]]]
               IN IF \E k \in 1..n : sym[k] < 0 THEN NoCash
                  ELSE IF Rem([k \in 1 .. colon - 1 |-> low[k] % 32] \o <<0>> \o sym) # One THEN NoCash
                  ELSE LET u == Unpack(SubSeq(sym, 1, n - 8), 5, 8)
                       IN IF ~u.ok THEN NoCash
                          ELSE IF u.v = <<>> THEN NoCash
                          ELSE LET version == u.v[1] hash == Tail(u.v)
                               IN IF version >= 16 \/ Sizes[(version % 8) + 1] # Len(hash) THEN NoCash
                                  ELSE [ok |-> TRUE, prefix |-> prefix, kind |-> version \div 8, hash |-> hash]
=============================================================================
