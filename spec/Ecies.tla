-------------------------------- MODULE Ecies --------------------------------
(***************************************************************************)
(* Encrypted messages: magic, the ephemeral public key, ciphertext, MAC.   *)
(* The shared point gives three keys; the padded message is encrypted with *)
(* the first two, and all but the MAC itself authenticated with the third. *)
(* Kdf, Enc, Dec and Mac are parameters; BS is the cipher's block size and *)
(* MacLen the length of a MAC.                                             *)
(***************************************************************************)
EXTENDS KeyOps
CONSTANTS BS, MacLen, Kdf(_), Enc(_, _), Dec(_, _), Mac(_, _)
Pad(m) == LET n == BS - (Len(m) % BS) IN m \o [k \in 1..n |-> n]
Unpad(m) ==
  IF m = <<>> \/ Len(m) % BS # 0 THEN BadOp
  ELSE LET n == m[Len(m)]
       IN IF n < 1 \/ n > BS THEN BadOp
          ELSE IF \E k \in Len(m) - n + 1 .. Len(m) : m[k] # n THEN BadOp ELSE Made(SubSeq(m, 1, Len(m) - n))
EncryptWith(e, pub, magic, m) ==
  LET keys == Kdf(KeyBytes(EcMul(P, e, pub), TRUE))
      body == magic \o KeyBytes(PubOf(e), TRUE) \o Enc(keys, Pad(m))
  IN body \o Mac(keys, body)
Decrypt(d, magic, b) ==
  LET ml == Len(magic) n == Len(b) - MacLen
  IN IF Len(b) < ml + 1 + WP + BS + MacLen \/ SubSeq(b, 1, ml) # magic THEN BadOp
     ELSE LET q == ParseKey(SubSeq(b, ml + 1, ml + 1 + WP)) IN
          IF ~q.ok THEN BadOp
          ELSE LET keys == Kdf(KeyBytes(EcMul(P, d, q.pt), TRUE))
                   text == SubSeq(b, ml + 2 + WP, n)
               IN IF Mac(keys, SubSeq(b, 1, n)) # SubSeq(b, n + 1, Len(b)) \/ Len(text) % BS # 0 THEN BadOp
                  ELSE Unpad(Dec(keys, text))
=============================================================================
