------------------------------- MODULE Text58 -------------------------------
(* Base58 and Base58Check text.                                             *)
EXTENDS Base58, Hashes
Alphabet58 == Cps("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
Value58 == [c \in 0..127 |-> IF \E k \in 1..58 : Alphabet58[k] = c THEN (CHOOSE k \in 1..58 : Alphabet58[k] = c) - 1 ELSE -1]
Enc58(b) == LET d == Rebase(b, 256, 58) IN FromCps([k \in DOMAIN d |-> Alphabet58[d[k] + 1]])
\* t: code points of the text
Ok58(t) == t # <<>> /\ \A k \in DOMAIN t : t[k] < 128 /\ Value58[t[k]] >= 0
Dec58(t) == Rebase([k \in DOMAIN t |-> Value58[t[k]]], 58, 256)
Check4(b) == SubSeq(Sha256d(b), 1, 4)
Enc58Check(b) == Enc58(b \o Check4(b))
Dec58Check(t) ==
  IF ~Ok58(t) THEN [ok |-> FALSE]
  ELSE LET b == Dec58(t) n == Len(b) - 4
       IN IF n < 0 THEN [ok |-> FALSE]
          ELSE IF SubSeq(b, n + 1, n + 4) = Check4(SubSeq(b, 1, n)) THEN [ok |-> TRUE, v |-> SubSeq(b, 1, n)] ELSE [ok |-> FALSE]
=============================================================================
