-------------------------------- MODULE Texts --------------------------------
(* The canonical texts in which drivers record values.                       *)
EXTENDS Integers, Sequences, TLC, Hashes, BigNat
B_(b) == "b:" \o Hex(b)
S_(s) == "s:" \o s
I_(n) == "i:" \o ToString(n)
N_(v) == "i:" \o BDec(v)
T_(x) == IF x THEN "t" ELSE "f"
L_(ss) == "[" \o Join(ss, ",") \o "]"
Mag(h) == BFromBE(Hx(h))
IsNeg(sign, m) == sign = "-" /\ m # <<>>
Signed_(neg, m) == (IF neg /\ m # <<>> THEN "i:-" ELSE "i:") \o BDec(m)
=============================================================================
