---------------------------- MODULE CompactBits ----------------------------
(***************************************************************************)
(* The compact ("nBits") encoding of proof-of-work targets, over digit     *)
(* sequences in an arbitrary base.  Bitcoin's format is Base = 256 with    *)
(* MaxDigits = 32; the same definitions with a small base are checked      *)
(* exhaustively by MC_CompactBits.                                         *)
(*                                                                         *)
(* A target is a little-endian digit sequence without trailing zeros (a    *)
(* BigNat when Base = 256).  A compact value is <<size, m3, m2, m1>>: the  *)
(* number of digits and the three most significant ones, of which the top  *)
(* one must be below Base \div 2 (its top bit is a sign that is never set).*)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Base, MaxDigits

LOCAL D(t, k) == IF k >= 1 /\ k <= Len(t) THEN t[k] ELSE 0
RECURSIVE StripZeros(_)
StripZeros(t) == IF t # <<>> /\ t[Len(t)] = 0 THEN StripZeros(SubSeq(t, 1, Len(t) - 1)) ELSE t

Encodable(t) == Len(t) <= MaxDigits
Encode(t) ==
  LET n == Len(t)
  IN IF n = 0 THEN <<0, 0, 0, 0>>
     ELSE IF t[n] >= Base \div 2 THEN <<n + 1, 0, t[n], D(t, n - 1)>>
     ELSE <<n, t[n], D(t, n - 1), D(t, n - 2)>>

\* mantissa * Base^(size - 3), and whether that is an integer
Exact(c) == \A j \in 1..3 : (c[1] - j + 1 >= 1) \/ c[1 + j] = 0
Value(c) ==
  StripZeros([k \in 1 .. c[1] |->
                IF k = c[1] THEN c[2] ELSE IF k = c[1] - 1 THEN c[3] ELSE IF k = c[1] - 2 THEN c[4] ELSE 0])

\* Exactly the compact values the encoder can produce decode.
Decodable(c) == c[1] <= MaxDigits + 1 /\ Exact(c) /\ Encodable(Value(c)) /\ Encode(Value(c)) = c
Decode(c) == Value(c)
=============================================================================
