-------------------------------- MODULE Ecdsa --------------------------------
(***************************************************************************)
(* ECDSA over the group generated by GG, of prime order N.                 *)
(***************************************************************************)
EXTENDS KeyForms, Der
CONSTANT GG
PubOf(d) == EcMul(P, d, GG)
InRange(v) == v # <<>> /\ BLt(v, N)
MulN(a, b) == BMod(BMul(a, b), N)
NegN(a) == IF a = <<>> THEN a ELSE BSub(N, a)
InvN(a) == BInvMod(a, N)
LowS(s) == BLe(BMul(<<2>>, s), N)

\* z: the hash as a number
Verifies(pt, z, r, s) ==
  IF ~InRange(r) \/ ~InRange(s) THEN FALSE
  ELSE LET w == InvN(s)
           q == EcAdd(P, EcMul(P, MulN(z, w), GG), EcMul(P, MulN(r, w), pt))
       IN IF q = <<>> THEN FALSE ELSE BMod(q[1], N) = r
\* what verification accepts
Accepts(pt, z, r, s) == LowS(s) /\ Verifies(pt, z, r, s)

\* id: 0 .. 3
RecoverKey(z, r, s, id) ==
  IF ~InRange(r) \/ ~InRange(s) THEN NoKey
  ELSE LET l == LiftX(IF id >= 2 THEN BAdd(r, N) ELSE r, id % 2 = 1)
       IN IF ~l.ok THEN NoKey
          ELSE LET w == InvN(r)
                   q == EcAdd(P, EcMul(P, MulN(s, w), l.pt), EcMul(P, NegN(MulN(z, w)), GG))
               IN IF q = <<>> THEN NoKey ELSE [ok |-> TRUE, pt |-> q]

\* the signature of z with nonce k: [ok, r, s, id]
SignWith(d, z, k) ==
  LET pt == PubOf(k)
      r == BMod(pt[1], N)
      s == MulN(InvN(k), BMod(BAdd(z, BMul(r, d)), N))
      id == (IF BLt(pt[1], N) THEN 0 ELSE 2) + (IF IsOdd(pt[2]) THEN 1 ELSE 0)
  IN IF r = <<>> \/ s = <<>> THEN [ok |-> FALSE]
     ELSE IF LowS(s) THEN [ok |-> TRUE, r |-> r, s |-> s, id |-> id]
     ELSE [ok |-> TRUE, r |-> r, s |-> NegN(s), id |-> IF id % 2 = 1 THEN id - 1 ELSE id + 1]

(* Recoverable signatures: r, s and id.  Message signatures: 27 + id, plus 4 for a compressed key, then r and s. *)
RecSig(b) ==
  IF Len(b) # 2 * W + 1 THEN DerFail
  ELSE LET c == CompactSig(SubSeq(b, 1, 2 * W)) id == b[2 * W + 1]
       IN IF ~c.ok \/ id > 3 THEN DerFail ELSE [ok |-> TRUE, r |-> c.r, s |-> c.s, id |-> id]
RecBytes(r, s, id) == Compact(r, s) \o <<id>>
MsgToRec(b) == IF Len(b) # 2 * W + 1 THEN DerFail
               ELSE IF b[1] < 27 \/ b[1] >= 35 THEN DerFail
               ELSE [ok |-> TRUE, v |-> SubSeq(b, 2, 2 * W + 1) \o <<(b[1] - 27) % 4>>]
RecToMsg(b, compressed) == <<27 + (IF compressed THEN 4 ELSE 0) + b[2 * W + 1]>> \o SubSeq(b, 1, 2 * W)
=============================================================================
