------------------------------- MODULE KeyOps -------------------------------
(***************************************************************************)
(* Arithmetic on keys.  A private key is [d, compressed, coin], a public   *)
(* one [pt, compressed, coin].  Operands v are numbers.                    *)
(***************************************************************************)
EXTENDS Ecdsa
BadOp == [ok |-> FALSE]
Made(k) == [ok |-> TRUE, k |-> k]
PublicOf(k) == [pt |-> PubOf(k.d), compressed |-> k.compressed, coin |-> k.coin]
AddPriv(k, v) == IF ~BLt(v, N) THEN BadOp
                 ELSE LET d == BMod(BAdd(k.d, v), N) IN IF d = <<>> THEN BadOp ELSE Made([k EXCEPT !.d = d])
MulPriv(k, v) == IF ~InRange(v) THEN BadOp ELSE Made([k EXCEPT !.d = MulN(k.d, v)])
AddPub(k, v) == IF ~BLt(v, N) THEN BadOp
                ELSE LET q == EcAdd(P, k.pt, PubOf(v)) IN IF q = <<>> THEN BadOp ELSE Made([k EXCEPT !.pt = q])
MulPub(k, v) == IF ~InRange(v) THEN BadOp ELSE Made([k EXCEPT !.pt = EcMul(P, v, k.pt)])
RECURSIVE SumPts(_)
SumPts(ks) == IF ks = <<>> THEN <<>> ELSE EcAdd(P, Head(ks).pt, SumPts(Tail(ks)))
\* the first key gives form and coin
Combine(ks) == IF ks = <<>> THEN BadOp
               ELSE LET q == SumPts(ks) IN IF q = <<>> THEN BadOp ELSE Made([ks[1] EXCEPT !.pt = q])
\* (d + v)(Q + vG); with v = 0 the Diffie-Hellman secret
SharedSecret(k, q, v) ==
  LET a == AddPriv(k, v) b == AddPub(q, v) IN IF ~a.ok \/ ~b.ok THEN BadOp ELSE MulPub(b.k, a.k.d)
=============================================================================
