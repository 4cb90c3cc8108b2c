------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* What a value of the library stands for.  A value is described by how it *)
(* is made, <<kind, ...>>; Ident gives what it stands for, and two values  *)
(* are equal exactly when they stand for the same.  Forms, coins and how a *)
(* value was made do not matter, except where listed here.                 *)
(* PointOf(secret) and PointIn(bytes) are the point of a public key; Raw   *)
(* bytes is anything with the same bytes: scripts, signatures, binary.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS PointOf(_), PointIn(_), NumOfText(_), PtAdd(_, _), PtMul(_, _), PtSum(_, _), SecretAdd(_, _), SecretMul(_, _), HeaderFields(_)
(* Keys computed from others *)
RECURSIVE SecretOf(_), PointFor(_)
SecretOf(d) == CASE d[1] = "sadd" -> SecretAdd(SecretOf(d[2]), d[3])
                 [] d[1] = "smul" -> SecretMul(SecretOf(d[2]), d[3])
                 [] OTHER -> d[2]
PointFor(d) == CASE d[1] \in {"pub", "xpub"} -> PointOf(d[2])
                 [] d[1] = "pubb" -> PointIn(d[2])
                 [] d[1] = "comp" -> PointFor(d[2])
                 [] d[1] = "padd" -> PtAdd(PointFor(d[2]), d[3])
                 [] d[1] = "pmul" -> PtMul(PointFor(d[2]), d[3])
                 [] d[1] = "psum" -> PtSum(PointFor(d[2]), PointFor(d[3]))
FieldNames == <<"version", "prev_hash", "merkle_root", "timestamp", "bits", "nonce", "hash", "raw", "height">>
FieldsOf(raw, height) == HeaderFields(raw) \o <<raw, height>>
RECURSIVE Ident(_)
Ident(d) ==
  LET all(ds) == [k \in DOMAIN ds |-> Ident(ds[k])]
  IN CASE d[1] \in {"priv", "wif", "xprv", "sadd", "smul"} -> <<"private key", NumOfText(SecretOf(d))>>    \* whatever form or coin
       [] d[1] \in {"pub", "xpub", "pubb", "comp", "padd", "pmul", "psum"} -> <<"public key", PointFor(d)>>
       [] d[1] \in {"script", "sig", "bytes", "bytearray", "view"} -> <<"binary", d[2]>>
       [] d[1] \in {"p2pkh", "p2sh"} -> <<d[1], d[2]>>                            \* hash; whatever coin
       [] d[1] = "p2pk" -> <<"p2pk", Ident(d[2])>>
       [] d[1] = "multi" -> <<"multisig", d[2], all(d[3])>>                       \* threshold, keys in order
       [] d[1] = "opreturn" -> <<"op_return">>
       [] d[1] = "deriv" -> <<"derivation", d[2], d[3], d[4], d[5]>>
       [] d[1] = "txin" -> <<"input", d[2], NumOfText(d[3]), d[4], NumOfText(d[5])>>
       [] d[1] = "txout" -> <<"output", NumOfText(d[2]), d[3]>>
       [] d[1] = "tx" -> <<"transaction", NumOfText(d[2]), all(d[3]), all(d[4]), NumOfText(d[5])>>
       [] d[1] = "header" -> <<"header", FieldsOf(d[2], d[3])>>                   \* bytes and height
       [] d[1] = "hmix" -> LET a == FieldsOf(d[2], d[3]) b == FieldsOf(d[6], d[7])   \* some fields of another assigned
                           IN <<"header", [k \in DOMAIN a |-> IF \E j \in DOMAIN d[5] : d[5][j] = FieldNames[k] THEN b[k] ELSE a[k]]>>
       [] d[1] \in {"int", "sighash"} -> <<"number", NumOfText(d[2])>>
       [] OTHER -> d
\* unknown outputs have no value: each is equal only to itself
Same_(a, b) == a[1] # "unknown" /\ b[1] # "unknown" /\ Ident(a) = Ident(b)
\* these change, so they are no keys of dictionaries
Mutable == {"tx", "txin", "txout", "header", "hmix", "bytearray"}
=============================================================================
