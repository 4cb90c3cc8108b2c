---------------------------- MODULE MC_CompactBits --------------------------
(* Exhaustive check of CompactBits for a small base: every target and every *)
(* compact value is a state.                                                *)
EXTENDS CompactBits, TLC, FiniteSets
VARIABLE c

Digits == 0 .. Base - 1
RECURSIVE Num(_)
Num(t) == IF t = <<>> THEN 0 ELSE t[1] + Base * Num(Tail(t))
RECURSIVE OfNum(_)
OfNum(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfNum(n \div Base)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
MaxNum == Pow(Base, MaxDigits) - 1

Init == c \in {<<"target", n>> : n \in 0 .. MaxNum + 1}
              \cup {<<"compact", s, a, b, d>> : s \in 0 .. MaxDigits + 2, a \in Digits, b \in Digits, d \in Digits}
Next == UNCHANGED c

\* Arithmetic meaning of a compact value, independent of the digit definitions
Mant(s) == s[2] * Base * Base + s[3] * Base + s[4]
ArithExact(s) == s[1] >= 3 \/ Mant(s) % Pow(Base, 3 - s[1]) = 0
Arith(s) == IF s[1] >= 3 THEN Mant(s) * Pow(Base, s[1] - 3) ELSE Mant(s) \div Pow(Base, 3 - s[1])

\* The range test the implementation states: normalized mantissa, no sign, in range
Canonical(s) == \/ s = <<0, 0, 0, 0>>
                \/ /\ 2 * Mant(s) >= Base * Base /\ 2 * Mant(s) < Base * Base * Base
                   /\ ArithExact(s) /\ Arith(s) <= MaxNum /\ Arith(s) > 0

EncodeFloor ==
  c[1] = "target" /\ c[2] <= MaxNum =>
    LET e == Encode(OfNum(c[2])) IN
      /\ Decodable(e)
      /\ Num(Decode(e)) <= c[2]
      /\ Encode(Decode(e)) = e
      \* nothing representable lies strictly between: every target in between has the same encoding
      /\ \A n \in Num(Decode(e)) .. c[2] : Encode(OfNum(n)) = e
EncodeRange == c[1] = "target" => (Encodable(OfNum(c[2])) <=> c[2] <= MaxNum)
DecodeExact ==
  c[1] = "compact" =>
    LET s == Tail(c) IN
      /\ Decodable(s) <=> Canonical(s)
      /\ Decodable(s) => Num(Decode(s)) = Arith(s) /\ Encode(Decode(s)) = s
Monotone == c[1] = "target" /\ c[2] < MaxNum =>
              Num(Decode(Encode(OfNum(c[2])))) <= Num(Decode(Encode(OfNum(c[2] + 1))))
=============================================================================
