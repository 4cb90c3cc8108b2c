------------------------------ MODULE MC_Bip32 ------------------------------
(* Every derivation up to a depth on the toy curve, from masters with the    *)
(* given secrets, with a hash that takes every value: a private key's child  *)
(* and its public key's agree, exist together, the safe child is the first   *)
(* one, and serialization loses nothing.                                     *)
EXTENDS Bip32, Toy, TLC
CONSTANTS Depth, Secrets, Firsts, Half
VARIABLE x
HalfH == BFromInt(Half)
Low(m) == IF m = <<>> THEN 0 ELSE m[Len(m)]
\* the number is any of 0 .. 33 (31 and more are out of range), depending on chain code, index and kind of message
HmT(chain, msg) == [l |-> BFromInt((chain[1] + 11 * Low(msg) + (IF msg[1] = 0 THEN 5 ELSE 0)) % 34),
                    r |-> <<(chain[1] + Low(msg) + 1) % 34, chain[2]>>]
IdentT(b) == <<7, 7>> \o b
Init == \E d \in Secrets, f \in Firsts : x = MasterOf(BFromInt(d), <<f, d>>, "T").k
Idx == {BFromInt(k) : k \in 0 .. 2 * Half + 1}
Next == x.depth < Depth /\ \E k \in Idx : LET c == ChildOf(x, k) IN c.ok /\ (x' = c.k \/ x' = Neuter(c.k))
PrvT(v) == IF v = <<1, 2, 3, 4>> THEN "T" ELSE ""
PubT(v) == IF v = <<1, 2, 3, 5>> THEN "T" ELSE ""
Mirror == x.priv => \A k \in Idx :
  LET a == ChildOf(x, k) b == ChildOf(Neuter(x), k)
  IN IF BLt(k, HH) THEN IF a.ok THEN b.ok /\ (b.ok => b.k = Neuter(a.k)) ELSE ~b.ok ELSE ~b.ok
Range == \A k \in Idx : BLe(BMul(<<2>>, HH), k) => ~ChildOf(x, k).ok /\ ~SafeChild(x, k).ok
Side(k) == BLe(HH, k)
Safe == \A k \in Idx : InIndex(x, k) =>
  LET s == SafeChild(x, k)
      good == {j \in Idx : BLe(k, j) /\ Side(j) = Side(k) /\ ChildOf(x, j).ok}
  IN IF good = {} THEN ~s.ok
     ELSE s.ok /\ (s.ok => s.k.n \in good /\ (\A j \in good : BLe(s.k.n, j)) /\ s = ChildOf(x, s.k.n))
Kept == \A k \in Idx : LET c == ChildOf(x, k) IN c.ok =>
  c.k.depth = x.depth + 1 /\ c.k.n = k /\ c.k.fp = SubSeq(IdOf(x), 1, 4) /\ c.k.coin = x.coin /\ c.k.priv = x.priv
Texts_ == LET b == XBytes(x, IF x.priv THEN <<1, 2, 3, 4>> ELSE <<1, 2, 3, 5>>)
          IN /\ XParse(b, PrvT, PubT) = Made(x)
             /\ ~XParse(Append(b, 0), PrvT, PubT).ok
             /\ ~XParse(SubSeq(b, 1, Len(b) - 1), PrvT, PubT).ok
             /\ ~XParse([b EXCEPT ![4] = 6], PrvT, PubT).ok
             /\ \A j \in DOMAIN b, v \in {0, 1, 2, 3, 5, 30, 31} :
                  LET r == XParse([b EXCEPT ![j] = v], PrvT, PubT)
                  IN r.ok => XBytes(r.k, IF r.k.priv THEN <<1, 2, 3, 4>> ELSE <<1, 2, 3, 5>>) = [b EXCEPT ![j] = v]
=============================================================================
