------------------------------ MODULE MC_Bip39 ------------------------------
(* All entropies and all word sequences of up to MaxWords words, for several *)
(* digests: a word sequence is valid exactly when it encodes exactly one     *)
(* entropy, and each first n - 1 words have equally many valid last words.   *)
EXTENDS Bip39, TLC, FiniteSets
CONSTANTS MaxWords, D
VARIABLE c
Mix(b) == [k \in 1 .. Len(b) + 2 |-> CASE D = 0 -> 0
            [] D = 1 -> (BitsVal(b, 1, Len(b)) \div (k + 1)) % 2
            [] OTHER -> ((BitsVal(b, 1, Len(b)) * (2 * k + 1)) \div 8) % 2]
Good(n) == n > 0 /\ (n * WB) % (R + 1) = 0
Words == 0 .. (2 ^ WB) - 1
Init == c \in {<<"w", <<>>>>, <<"e", <<>>>>}
Next == \/ c[1] = "w" /\ Len(c[2]) < MaxWords /\ \E w \in Words : c' = <<"w", Append(c[2], w)>>
        \/ c[1] = "e" /\ Len(c[2]) < EntropyLen(MaxWords) /\ \E b \in {0, 1} : c' = <<"e", Append(c[2], b)>>
IsEntropy(e) == Len(e) > 0 /\ Len(e) % R = 0 /\ ((Len(e) \div R) * (R + 1)) % WB = 0
Generated == (c[1] = "e" /\ IsEntropy(c[2])) => LET ws == Encode39(c[2]) IN Valid39(ws) /\ EntropyOf(ws) = c[2]
Unique == (c[1] = "w" /\ Good(Len(c[2]))) => (Valid39(c[2]) <=>
            \E e \in [1 .. EntropyLen(Len(c[2])) -> {0, 1}] : Encode39(e) = c[2])
LastWord == (c[1] = "w" /\ Good(Len(c[2]) + 1)) =>
  LET n == Len(c[2]) + 1 cs == EntropyLen(n) \div R
  IN cs <= WB => Cardinality({w \in Words : Valid39(Append(c[2], w))}) = 2 ^ (WB - cs)
=============================================================================
