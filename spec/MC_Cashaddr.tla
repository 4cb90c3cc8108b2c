----------------------------- MODULE MC_Cashaddr -----------------------------
(* The checksum tells apart any two texts that differ in up to three        *)
(* characters (distance MaxLen or less apart), and regrouping of bits is    *)
(* exact: <<"p", i, x^i>>, <<"s", symbols>>, <<"o", octets>>.               *)
EXTENDS Cashaddr, TLC
CONSTANTS MaxLen, F, T, MaxSym, MaxOct
VARIABLE c
Init == c \in {<<"p", 0, One>>, <<"s", <<>>>>, <<"o", <<>>>>}
Next == \/ c[1] = "p" /\ c[2] < MaxLen /\ c' = <<"p", c[2] + 1, Step(c[3], 0)>>
        \/ c[1] = "p" /\ c' = <<"q", c[2], c[3], c[2], c[3]>>
        \/ c[1] = "q" /\ c[4] < MaxLen /\ c' = <<"q", c[2], c[3], c[4] + 1, Step(c[5], 0)>>
        \/ c[1] = "s" /\ Len(c[2]) < MaxSym /\ \E x \in 0 .. (2 ^ F) - 1 : c' = <<"s", Append(c[2], x)>>
        \/ c[1] = "o" /\ Len(c[2]) < MaxOct /\ \E x \in 0 .. (2 ^ T) - 1 : c' = <<"o", Append(c[2], x)>>
Constant(r) == \A k \in 1..7 : r[k] = 0
Double == c[1] = "p" => ((c[2] > 0 => ~Constant(c[3])) /\ c[3] # [k \in 1..8 |-> 0])
\* x^j + a x^i is no constant
Triple == (c[1] = "q" /\ (c[1] = "q" => (c[2] > 0 /\ c[4] > c[2]))) => \A a \in 1..31 : ~Constant([k \in 1..8 |-> Xor(c[5][k], Gf(a, c[3][k]))])
Field == (c = <<"p", 0, One>>) => \A a, b \in 1..31 : (\E x \in 1..31 : Gf(a, x) = 1) /\ Gf(a, b) = Gf(b, a) /\ Gf(a, b) # 0 /\ 
       (\A d \in 1..31 : Gf(a, Xor(b, d)) = Xor(Gf(a, b), Gf(a, d)) /\ Gf(Gf(a, b), d) = Gf(a, Gf(b, d)))
OctetsBack == c[1] = "o" => LET p == Pack(c[2], F, T) IN Unpack(p, F, T) = [ok |-> TRUE, v |-> c[2]]
SymbolsBack == c[1] = "s" => LET u == Unpack(c[2], F, T) IN u.ok => Pack(u.v, F, T) = c[2]
=============================================================================
