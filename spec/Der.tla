-------------------------------- MODULE Der --------------------------------
(***************************************************************************)
(* DER signatures: SEQUENCE { INTEGER r, INTEGER s } in strict DER.  W is  *)
(* the width of the numbers in bytes and N the order they must be below.   *)
(* An integer that is negative, too wide or not below N is accepted as     *)
(* encoding and stands for the (never valid) value 0.                      *)
(***************************************************************************)
EXTENDS BigNat
CONSTANTS W, N
DerFail == [ok |-> FALSE]

\* a definite length at position i: its value and the position after it
RECURSIVE BEVal(_)
BEVal(b) == IF b = <<>> THEN 0 ELSE BEVal(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
DerLen(b, i) ==
  IF i > Len(b) THEN DerFail
  ELSE IF b[i] < 128 THEN [ok |-> TRUE, v |-> b[i], next |-> i + 1]
  ELSE LET k == b[i] - 128
       IN IF k = 0 \/ k > 3 \/ i + k > Len(b) THEN DerFail     \* no text here has 2^24 bytes
          ELSE LET v == BEVal(SubSeq(b, i + 1, i + k))
               IN IF b[i + 1] = 0 \/ v < 128 THEN DerFail ELSE [ok |-> TRUE, v |-> v, next |-> i + 1 + k]
DerInt(b, i) ==
  IF i > Len(b) \/ b[i] # 2 THEN DerFail
  ELSE LET l == DerLen(b, i + 1) IN
       IF ~l.ok THEN DerFail
       ELSE IF l.v = 0 \/ l.next + l.v - 1 > Len(b) THEN DerFail
       ELSE LET body == SubSeq(b, l.next, l.next + l.v - 1)
                excess == l.v > 1 /\ ((body[1] = 0 /\ body[2] < 128) \/ (body[1] = 255 /\ body[2] >= 128))
                value == BFromBE(body)
            IN IF excess THEN DerFail
               ELSE [ok |-> TRUE, v |-> IF body[1] >= 128 \/ Len(value) > W \/ ~BLt(value, N) THEN <<>> ELSE value,
                     next |-> l.next + l.v]
\* r and s
DerSig(b) ==
  IF Len(b) < 1 \/ b[1] # 48 THEN DerFail
  ELSE LET l == DerLen(b, 2) IN
       IF ~l.ok THEN DerFail
       ELSE IF l.next + l.v - 1 # Len(b) THEN DerFail
       ELSE LET r == DerInt(b, l.next) IN
            IF ~r.ok THEN DerFail
            ELSE LET s == DerInt(b, r.next) IN
                 IF ~s.ok THEN DerFail ELSE IF s.next # Len(b) + 1 THEN DerFail
                 ELSE [ok |-> TRUE, r |-> r.v, s |-> s.v]

\* the encoding of numbers below N
IntBody(v) == IF v = <<>> THEN <<0>> ELSE LET b == BToBE(v, Len(v)) IN IF b[1] >= 128 THEN <<0>> \o b ELSE b
Tlv(tag, body) == <<tag, Len(body)>> \o body     \* bodies shorter than 128 bytes
DerEnc(r, s) == Tlv(48, Tlv(2, IntBody(r)) \o Tlv(2, IntBody(s)))

\* fixed width form
Compact(r, s) == BToBE(r, W) \o BToBE(s, W)
CompactSig(b) ==
  IF Len(b) # 2 * W THEN DerFail
  ELSE LET r == BFromBE(SubSeq(b, 1, W)) s == BFromBE(SubSeq(b, W + 1, 2 * W))
       IN IF BLt(r, N) /\ BLt(s, N) THEN [ok |-> TRUE, r |-> r, s |-> s] ELSE DerFail
=============================================================================
