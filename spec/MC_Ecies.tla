------------------------------ MODULE MC_Ecies ------------------------------
(* All keys and short messages on the toy curve, with a cipher that adds the *)
(* key and a MAC that tells apart texts differing in one symbol, in length   *)
(* or in key: the message comes back, and every change of one symbol, every  *)
(* cut and every other key or magic is refused.                              *)
EXTENDS Ecies, Toy, TLC
CONSTANTS Ds, Es, Msgs, MaxMsg, BS0
VARIABLE c
KdfT(b) == <<b[2], 100 * b[1] + b[2]>>
EncT(k, m) == [j \in DOMAIN m |-> (m[j] + k[1] + j) % 256]
DecT(k, m) == [j \in DOMAIN m |-> (m[j] - k[1] - j + 65536) % 256]
RECURSIVE Poly(_, _)
Poly(b, n) == IF n = 0 THEN 0 ELSE (263 * Poly(b, n - 1) + b[n]) % 46337
MacT(k, b) == <<k[2], Len(b), Poly(b, Len(b))>>
Magic == <<77>>
Init == c \in {<<"d", d, <<>>>> : d \in Ds}
Next == \/ c[1] = "d" /\ Len(c[3]) < MaxMsg /\ \E x \in Msgs : c' = <<"d", c[2], Append(c[3], x)>>
        \/ c[1] = "d" /\ \E e \in Es : c' = <<"m", c[2], c[3], EncryptWith(BFromInt(e), PubOf(BFromInt(c[2])), Magic, c[3])>>
D(n) == BFromInt(n)
Back == c[1] = "m" => LET b == c[4] d == D(c[2]) IN
  /\ Decrypt(d, Magic, b) = Made(c[3])
  /\ Len(b) = 1 + 2 + BS * ((Len(c[3]) \div BS) + 1) + MacLen
  /\ ~Decrypt(d, <<78>>, b).ok
  /\ \A k \in 1 .. Len(b) - 1 : ~Decrypt(d, Magic, SubSeq(b, 1, k)).ok
  /\ \A x \in {0, 1, 77} : ~Decrypt(d, Magic, Append(b, x)).ok
  /\ \A k \in 1 .. Len(b), x \in {0, 1, 2, 3, 4, 7, 31, 77, 255} : b[k] # x => ~Decrypt(d, Magic, [b EXCEPT ![k] = x]).ok
  /\ \A o \in 1..30 : o # c[2] => ~Decrypt(D(o), Magic, b).ok
Padding == c[1] = "d" => /\ Unpad(Pad(c[3])) = Made(c[3])
                         /\ LET u == Unpad(c[3]) IN u.ok => Pad(u.k) = c[3]
=============================================================================
