------------------------------- MODULE MC_Logs ------------------------------
(* The logarithm by squaring is exact: 2^q <= w^(2^K) < 2^(q+1), and nearness *)
(* tells neighbouring doubles apart from far ones.                           *)
EXTENDS Logs, TLC
CONSTANTS MaxW, Bits
VARIABLE w
Init == w \in 1 .. MaxW
Next == FALSE /\ w' = w
Exact == \A K \in 0..Bits :
  LET q == BToInt(Log2(BFromInt(w), 100, K)) p == BPow(BFromInt(w), 2 ^ K) IN BLe(BPow2(q), p) /\ BLt(p, BPow2(q + 1))
Grows == w > 1 => BLe(Log2(BFromInt(w - 1), 100, Bits), Log2(BFromInt(w), 100, Bits))
NearEnough == \A d \in 1 .. 9 : Near(BFromInt(w * 16), 4, BFromInt(w * d), BFromInt(d), 50) /\ ~Near(BFromInt(w * 16 + 1), 4, BFromInt(w * d), BFromInt(d), 30)
=============================================================================
