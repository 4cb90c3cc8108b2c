------------------------------- MODULE MC_Der -------------------------------
(* Every encoding, changed by up to Edits edits: what is accepted with two   *)
(* non-zero numbers is the one encoding of them.                             *)
EXTENDS Der, TLC
CONSTANTS Edits, Limit
VARIABLE c
NVal == BFromInt(Limit)
Vals == {0, 1, 2, 127, 128, Limit - 1}
Symbols == {0, 1, 2, 3, 4, 6, 7, 48, 127, 128, 129, 255}
Init == c \in {<<0, DerEnc(BFromInt(r), BFromInt(s)), r, s>> : r, s \in Vals}
Next == c[1] < Edits /\ \E k \in 0 .. Len(c[2]), x \in Symbols : \E b \in
          {SubSeq(c[2], 1, k) \o <<x>> \o SubSeq(c[2], k + 1, Len(c[2])),
           SubSeq(c[2], 1, k) \o SubSeq(c[2], k + 2, Len(c[2])),
           SubSeq(c[2], 1, k) \o <<x>> \o SubSeq(c[2], k + 2, Len(c[2]))} : c' = <<c[1] + 1, b, 0, 0>>
Exact == c[1] = 0 => DerSig(c[2]) = [ok |-> TRUE, r |-> BFromInt(c[3]), s |-> BFromInt(c[4])]
Strict == LET q == DerSig(c[2]) IN (q.ok /\ (q.ok => q.r # <<>> /\ q.s # <<>>)) => DerEnc(q.r, q.s) = c[2]
Below == LET q == DerSig(c[2]) IN q.ok => BLt(q.r, N) /\ BLt(q.s, N)
Fixed == c[1] = 0 => CompactSig(Compact(BFromInt(c[3]), BFromInt(c[4]))) = DerSig(c[2])
=============================================================================
