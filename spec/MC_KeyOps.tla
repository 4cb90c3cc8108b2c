------------------------------ MODULE MC_KeyOps ------------------------------
(* Keys reached by up to Depth operations on the toy curve, as private key   *)
(* and as public key side by side: they fail together, and stay a pair.      *)
EXTENDS KeyOps, Toy, TLC
CONSTANTS Depth, Values
VARIABLE c
Start(d) == [d |-> BFromInt(d), compressed |-> d % 2 = 1, coin |-> d % 3]
Init == c \in {<<0, Start(d), PublicOf(Start(d)), TRUE>> : d \in 1..30}
Both(a, b) == c' = <<c[1] + 1, IF a.ok THEN a.k ELSE c[2], IF b.ok THEN b.k ELSE c[3], a.ok = b.ok>>
Next == /\ c[1] < Depth
        /\ \E v \in Values : LET n == BFromInt(v) IN Both(AddPriv(c[2], n), AddPub(c[3], n)) \/ Both(MulPriv(c[2], n), MulPub(c[3], n))
Pair == c[3] = PublicOf(c[2])
Together == c[4]
Range == InRange(c[2].d)
Kept == \E d \in 1..30 : c[2].compressed = Start(d).compressed /\ c[2].coin = Start(d).coin
\* combining public keys is adding secrets; both sides of a shared secret agree
Sums == \A d \in 1..30 : LET o == Start(d) s == AddPriv(c[2], o.d) m == Combine(<<c[3], PublicOf(o)>>) IN
  /\ s.ok = m.ok
  /\ s.ok => m.k = PublicOf(s.k)
  /\ LET x == Combine(<<PublicOf(o), c[3]>>) IN x.ok = m.ok /\ (m.ok => x.k.pt = m.k.pt)
Shares == \A d \in 1..30, v \in {0, 1, 30} : LET o == Start(d) n == BFromInt(v)
     a == SharedSecret(c[2], PublicOf(o), n) b == SharedSecret(o, c[3], n) IN a.ok = b.ok /\ (a.ok => a.k.pt = b.k.pt)
=============================================================================
