------------------------------ MODULE MC_Self -------------------------------
(* The Java evaluation of BigNat and Ec agrees with their definitions:       *)
(* PureBigNat is BigNat under another name (made by vf/core.py when run), so *)
(* that TLC interprets the definitions themselves.                           *)
EXTENDS Ec, Secp, Toy, TLC
CONSTANTS Count, Sizes, Deep
PB == INSTANCE PureBigNat
VARIABLE c
\* pseudo-random digits
Mix(n) == ((n * 5821 + 7) % 65521) % 46337
RECURSIVE Noise(_, _)
Noise(n, k) == IF k = 0 THEN <<>> ELSE <<Mix(n) % 256>> \o Noise(Mix(n), k - 1)
Edge == {<<>>, <<1>>, <<2>>, <<9>>, <<10>>, <<127>>, <<128>>, <<255>>, <<0, 1>>, <<1, 1>>, <<255, 255>>, <<0, 0, 1>>,
         <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 0, 0, 0, 255>>, Fill(255, 16), Fill(0, 16) \o <<1>>, Fill(255, 32),
         Fill(0, 32) \o <<1>>, SecpN, SecpP}
Numbers == Edge \cup {PB!BNorm(Noise(n * 131 + k, k)) : n \in 1 .. Count, k \in Sizes}
Init == c \in {<<"a", a>> : a \in Numbers} \cup {<<"k", k>> : k \in 1 .. 6}
Next == c[1] = "a" /\ \E b \in Numbers : c' = <<"b", c[2], b>>
One == c[1] = "a" => LET a == c[2] IN
  /\ BNorm(a \o <<0, 0>>) = PB!BNorm(a \o <<0, 0>>)
  /\ BFromLE(a \o <<0>>) = PB!BFromLE(a \o <<0>>)
  /\ BFromBE(<<0>> \o a) = PB!BFromBE(<<0>> \o a)
  /\ \A n \in {Len(a), Len(a) + 1, Len(a) + 5} : BToLE(a, n) = PB!BToLE(a, n) /\ BToBE(a, n) = PB!BToBE(a, n)
  /\ BBitLen(a) = PB!BBitLen(a)
  /\ (Deep \/ Len(a) < 20 => BDec(a) = PB!BDec(a))
  /\ (Len(a) <= 3 => BToInt(a) = PB!BToInt(a) /\ BFromInt(PB!BToInt(a)) = PB!BFromInt(PB!BToInt(a)))
  /\ Len(a) < 2 /\ (Deep \/ PB!BToInt(a) < 20) => (BPow2(PB!BToInt(a)) = PB!BPow2(PB!BToInt(a)) /\ BPow(<<3>>, PB!BToInt(a) % 40) = PB!BPow(<<3>>, PB!BToInt(a) % 40))
Two == c[1] = "b" => LET a == c[2] b == c[3] IN
  /\ BCmp(a, b) = PB!BCmp(a, b) /\ BLt(a, b) = PB!BLt(a, b) /\ BLe(a, b) = PB!BLe(a, b)
  /\ BMin(a, b) = PB!BMin(a, b) /\ BMax(a, b) = PB!BMax(a, b)
  /\ BAdd(a, b) = PB!BAdd(a, b) /\ BMul(a, b) = PB!BMul(a, b)
  /\ BSum(<<a, b, a>>) = PB!BSum(<<a, b, a>>)
  /\ (PB!BLe(b, a) => BSub(a, b) = PB!BSub(a, b))
  /\ (b # <<>> /\ (Deep \/ Len(a) + Len(b) \in {1, 2, 3, 4, 5, 64}) =>
        \E qr \in {PB!BDivMod(a, b)} : BDivMod(a, b) = qr /\ BDiv(a, b) = qr[1] /\ BMod(a, b) = qr[2])
  /\ (b # <<>> /\ Len(a) <= 2 /\ Len(b) <= (IF Deep THEN 5 ELSE 1) => BPowMod(BAdd(a, <<3>>), a, b) = PB!BPowMod(PB!BAdd(a, <<3>>), a, b))
  /\ (Len(a) = 1 /\ a[1] % 43 # 0 => BInvMod(PB!BMod(a, ToyP), ToyP) = PB!BInvMod(PB!BMod(a, ToyP), ToyP))
\* the fast curve multiplication on secp256k1
Curve == c[1] = "k" =>
  LET n == BMod(BFromLE(Noise(c[2] * 977, 32)), SecpN)
      k == <<<<1>>, <<2>>, <<3>>, BSub(SecpN, <<1>>), SecpN, n>>[c[2]]
      p == EcMulDef(SecpP, k, SecpG)
  IN /\ EcMul(SecpP, k, SecpG) = p
     /\ (p # <<>> => EcOn(SecpP, SecpB, p[1], p[2]))
     /\ (k = SecpN) = (p = <<>>)
=============================================================================
