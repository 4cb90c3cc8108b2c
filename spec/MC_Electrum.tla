----------------------------- MODULE MC_Electrum -----------------------------
(* All values below the limit and all triples of words: the words of a value *)
(* give it back, and a triple is in range exactly for the triples of values. *)
EXTENDS Electrum, TLC
CONSTANTS Limit
VARIABLE c
EMVal == BFromInt(Limit)
Init == c \in {<<"v", 0>>} \cup {<<"t", i, j, k>> : i, j, k \in 0 .. EN - 1}
Next == c[1] = "v" /\ c[2] < Limit - 1 /\ c' = <<"v", c[2] + 1>>
Back == c[1] = "v" => LET v == BFromInt(c[2]) w == OldWords(v) IN
  /\ OldValue(w[1], w[2], w[3]) = v
  /\ OldOk(w[1], w[2], w[3])
  /\ \A n \in 1..3 : w[n] \in 0 .. EN - 1
There == c[1] = "t" => LET v == OldValue(c[2], c[3], c[4]) IN
  /\ OldWords(v) = <<c[2], c[3], c[4]>>
  /\ BLt(v, BPow(BN, 3))
  /\ OldOk(c[2], c[3], c[4]) <=> BLt(v, EM)
ASSUME Limit <= EN * EN * EN
=============================================================================
