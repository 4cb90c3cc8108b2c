-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Fixed-width integers, compact sizes, byte strings and lists on a byte   *)
(* stream, over digit sequences in base Base (256 for the real format; a   *)
(* small base for exhaustive checking).  Naturals are little-endian digit  *)
(* sequences without trailing zeros.  Readers return [ok, v, n]: whether   *)
(* the stream was long enough, the value, and the digits consumed.         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Base

LOCAL D(t, k) == IF k <= Len(t) THEN t[k] ELSE 0
RECURSIVE Strip(_)
Strip(t) == IF t # <<>> /\ t[Len(t)] = 0 THEN Strip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Flip(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Fail == [ok |-> FALSE, v |-> <<>>, n |-> 0]
Got(v, n) == [ok |-> TRUE, v |-> v, n |-> n]

LE(t, w) == [k \in 1..w |-> D(t, k)]
BE(t, w) == Flip(LE(t, w))
Fits(t, w) == Len(t) <= w
ReadRaw(s, w) == IF Len(s) < w THEN Fail ELSE Got(SubSeq(s, 1, w), w)
ReadLE(s, w) == IF Len(s) < w THEN Fail ELSE Got(Strip(SubSeq(s, 1, w)), w)
ReadBE(s, w) == IF Len(s) < w THEN Fail ELSE Got(Strip(Flip(SubSeq(s, 1, w))), w)

(* Compact size: one digit, or a marker digit and 2, 4 or 8 digits *)
Marker(k) == Base - 3 + k      \* k = 0, 1, 2
IsSmall(t) == t = <<>> \/ (Len(t) = 1 /\ t[1] < Base - 3)
SizeFits(t) == Len(t) <= 8
SizeOf(t) == IF IsSmall(t) THEN <<D(t, 1)>>
             ELSE IF Len(t) <= 2 THEN <<Marker(0)>> \o LE(t, 2)
             ELSE IF Len(t) <= 4 THEN <<Marker(1)>> \o LE(t, 4)
             ELSE <<Marker(2)>> \o LE(t, 8)
ReadSize(s) ==
  IF s = <<>> THEN Fail
  ELSE IF s[1] < Base - 3 THEN Got(Strip(<<s[1]>>), 1)
  ELSE LET w == CASE s[1] = Marker(0) -> 2 [] s[1] = Marker(1) -> 4 [] OTHER -> 8
           r == ReadLE(Tail(s), w)
       IN IF r.ok THEN Got(r.v, w + 1) ELSE Fail

RECURSIVE NatOf(_)
NatOf(t) == IF t = <<>> THEN 0 ELSE t[1] + Base * NatOf(Tail(t))
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfNat(n \div Base)

(* Length-prefixed byte strings *)
VarBytes(b) == SizeOf(OfNat(Len(b))) \o b
ReadVarBytes(s) ==
  LET z == ReadSize(s)
  IN IF ~z.ok \/ Len(z.v) > 3 THEN Fail      \* no stream here is that long
     ELSE LET k == NatOf(z.v)
          IN IF Len(s) < z.n + k THEN Fail ELSE Got(SubSeq(s, z.n + 1, z.n + k), z.n + k)

(* Lists: a compact count, then the items one after the other *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
ListOf(items, one(_)) == SizeOf(OfNat(Len(items))) \o Flatten([k \in 1..Len(items) |-> one(items[k])])
ReadListOf(s, one(_)) ==
  LET RECURSIVE ReadItems(_, _)
      ReadItems(t, k) ==
        IF k = 0 THEN Got(<<>>, 0)
        ELSE LET r == one(t)
             IN IF ~r.ok THEN Fail
                ELSE LET rest == ReadItems(SubSeq(t, r.n + 1, Len(t)), k - 1)
                     IN IF rest.ok THEN Got(<<r.v>> \o rest.v, r.n + rest.n) ELSE Fail
      z == ReadSize(s)
  IN IF ~z.ok \/ Len(z.v) > 3 THEN Fail
     ELSE LET r == ReadItems(SubSeq(s, z.n + 1, Len(s)), NatOf(z.v))
          IN IF r.ok THEN Got(r.v, z.n + r.n) ELSE Fail
=============================================================================
