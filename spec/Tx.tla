---------------------------------- MODULE Tx ----------------------------------
(***************************************************************************)
(* Transactions.  Numbers of fixed width are kept as their digits, least   *)
(* significant first: version, locktime, previous index and sequence have  *)
(* W4 digits and values W8; previous hashes have HashLen.                  *)
(* A transaction is [ver, ins, outs, lock], an input [hash, idx, script,   *)
(* seq] and an output [value, script].                                     *)
(***************************************************************************)
EXTENDS Wire
CONSTANTS HashLen, W4, W8, HashOf(_)

InBytes(x) == x.hash \o x.idx \o VarBytes(x.script) \o x.seq
OutBytes(x) == x.value \o VarBytes(x.script)
TxBytes(t) == t.ver \o ListOf(t.ins, InBytes) \o ListOf(t.outs, OutBytes) \o t.lock

From(s, n) == SubSeq(s, n + 1, Len(s))
ReadIn(s) ==
  IF Len(s) < HashLen + W4 THEN Fail
  ELSE LET r == ReadVarBytes(From(s, HashLen + W4))
           n == HashLen + W4 + r.n
       IN IF ~r.ok \/ Len(s) < n + W4 THEN Fail
          ELSE Got([hash |-> SubSeq(s, 1, HashLen), idx |-> SubSeq(s, HashLen + 1, HashLen + W4), script |-> r.v,
                    seq |-> SubSeq(s, n + 1, n + W4)], n + W4)
ReadOut(s) ==
  IF Len(s) < W8 THEN Fail
  ELSE LET r == ReadVarBytes(From(s, W8))
       IN IF r.ok THEN Got([value |-> SubSeq(s, 1, W8), script |-> r.v], W8 + r.n) ELSE Fail
ReadTx(s) ==
  LET i == ReadListOf(From(s, W4), ReadIn)
      o == ReadListOf(From(s, W4 + i.n), ReadOut)
      n == W4 + i.n + o.n
  IN IF Len(s) < W4 \/ ~i.ok THEN Fail
     ELSE IF ~o.ok \/ Len(s) < n + W4 THEN Fail
     ELSE Got([ver |-> SubSeq(s, 1, W4), ins |-> i.v, outs |-> o.v, lock |-> SubSeq(s, n + 1, n + W4)], n + W4)

(* Sizes without serializing *)
SizeLen(n) == Len(SizeOf(OfNat(n)))
RECURSIVE SumOf(_)
SumOf(ns) == IF ns = <<>> THEN 0 ELSE ns[1] + SumOf(Tail(ns))
InSize(x) == HashLen + 2 * W4 + SizeLen(Len(x.script)) + Len(x.script)
OutSize(x) == W8 + SizeLen(Len(x.script)) + Len(x.script)
TxSize(t) == 2 * W4 + SizeLen(Len(t.ins)) + SumOf([k \in DOMAIN t.ins |-> InSize(t.ins[k])])
                    + SizeLen(Len(t.outs)) + SumOf([k \in DOMAIN t.outs |-> OutSize(t.outs[k])])

(* What is signed for input i (from 1) with a given value and script: the    *)
(* parts one after the other; hashed parts that are left out are ZeroHash.   *)
(* acp: any one can pay; kind: "all", "none" or "single".                    *)
ZeroHash == [k \in 1..HashLen |-> 0]
SigParts(t, i, value, script, acp, kind, sighash) ==
  LET x == t.ins[i] IN
  << t.ver,
     IF acp THEN ZeroHash ELSE HashOf(Flatten([k \in DOMAIN t.ins |-> t.ins[k].hash \o t.ins[k].idx])),
     IF acp \/ kind # "all" THEN ZeroHash ELSE HashOf(Flatten([k \in DOMAIN t.ins |-> t.ins[k].seq])),
     x.hash \o x.idx, VarBytes(script), value, x.seq,
     IF kind = "all" THEN HashOf(Flatten([k \in DOMAIN t.outs |-> OutBytes(t.outs[k])]))
     ELSE IF kind = "single" /\ i <= Len(t.outs) THEN HashOf(OutBytes(t.outs[i]))
     ELSE ZeroHash,
     t.lock, sighash >>

(* What those flags say the signature commits to *)
Committed(t, i, acp, kind) ==
  [ ver |-> t.ver, lock |-> t.lock, own |-> <<t.ins[i].hash, t.ins[i].idx, t.ins[i].seq>>,
    prevouts |-> IF acp THEN <<>> ELSE [k \in DOMAIN t.ins |-> <<t.ins[k].hash, t.ins[k].idx>>],
    sequences |-> IF acp \/ kind # "all" THEN <<>> ELSE [k \in DOMAIN t.ins |-> t.ins[k].seq],
    outputs |-> IF kind = "all" THEN t.outs
                ELSE IF kind = "single" /\ i <= Len(t.outs) THEN <<t.outs[i]>> ELSE <<>> ]

(* Finality: height and time are naturals, as digits without trailing zeros; Threshold is where locktimes become times *)
RECURSIVE CmpNat(_, _, _)
CmpNat(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] > b[k] THEN 1 ELSE IF a[k] < b[k] THEN -1 ELSE CmpNat(a, b, k - 1)
Less(a, b) == LET x == Strip(a) y == Strip(b) IN Len(x) < Len(y) \/ (Len(x) = Len(y) /\ CmpNat(x, y, Len(x)) = -1)
MaxSeq == [k \in 1..W4 |-> Base - 1]
InputsFinal(t) == \A k \in DOMAIN t.ins : t.ins[k].seq = MaxSeq
IsFinal(t, height, time, threshold) ==
  \/ Strip(t.lock) = <<>>
  \/ Less(t.lock, threshold) /\ Less(t.lock, height)
  \/ ~Less(t.lock, threshold) /\ Less(t.lock, time)
  \/ InputsFinal(t)
IsCoinbaseIn(x) == x.hash = ZeroHash /\ x.idx = MaxSeq
=============================================================================
