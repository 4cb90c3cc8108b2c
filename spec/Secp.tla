-------------------------------- MODULE Secp --------------------------------
(* secp256k1                                                                 *)
EXTENDS BigNat, Hashes
SecpP == BSub(BPow2(256), BAdd(BPow2(32), BFromInt(977)))
SecpN == BSub(BPow2(256), BFromBE(Hx("000000000000000000000000000000014551231950b75fc4402da1732fc9bebf")))
SecpB == <<7>>
SecpG == <<BFromBE(Hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")),
           BFromBE(Hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"))>>
=============================================================================
