------------------------------ MODULE MC_Ecdsa ------------------------------
(* All keys, hashes, nonces and signatures on the toy curve.                 *)
(* <<"s", d, z, k>>: a signing; <<"v", d, z, r, s>>: a claimed signature.    *)
EXTENDS Ecdsa, Toy, TLC
CONSTANTS Ds, Zs
VARIABLE c
B(n) == BFromInt(n)
Init == c \in {<<"d", d>> : d \in Ds}
Next == \/ c[1] = "d" /\ \E z \in Zs, k \in 1..30 : c' = <<"s", B(c[2]), B(z), B(k)>>
        \/ c[1] = "d" /\ \E z \in Zs, r \in 0..31 : \E s \in 0..31 : c' = <<"v", B(c[2]), B(z), B(r), B(s)>>
Signed == c[1] = "s" => LET q == SignWith(c[2], c[3], c[4]) pub == PubOf(c[2]) IN q.ok =>
  /\ Accepts(pub, c[3], q.r, q.s)
  /\ RecoverKey(c[3], q.r, q.s, q.id) = [ok |-> TRUE, pt |-> pub]
  /\ Verifies(pub, c[3], q.r, NegN(q.s)) /\ ~LowS(NegN(q.s))
  /\ LET m == RecToMsg(RecBytes(q.r, q.s, q.id), TRUE) IN MsgToRec(m).v = RecBytes(q.r, q.s, q.id)
  /\ RecSig(RecBytes(q.r, q.s, q.id)) = q
  /\ DerSig(DerEnc(q.r, q.s)) = [ok |-> TRUE, r |-> q.r, s |-> q.s]
  /\ CompactSig(Compact(q.r, q.s)) = [ok |-> TRUE, r |-> q.r, s |-> q.s]
\* a signature verifies exactly for the keys that can be recovered from it
Claimed == c[1] = "v" => LET pub == PubOf(c[2]) IN
  /\ Verifies(pub, c[3], c[4], c[5]) <=> \E id \in 0..3 : LET q == RecoverKey(c[3], c[4], c[5], id) IN q.ok /\ (q.ok => q.pt = pub)
  /\ (InRange(c[4]) /\ InRange(c[5])) => (LowS(c[5]) # LowS(NegN(c[5])))
  \* and exactly when some nonce signs so
  /\ Accepts(pub, c[3], c[4], c[5]) <=> \E k \in 1..30 : LET q == SignWith(c[2], c[3], B(k)) IN q.ok /\ (q.ok => q.r = c[4] /\ q.s = c[5])
=============================================================================
