------------------------------ MODULE KeyForms ------------------------------
(***************************************************************************)
(* Public keys as bytes.  P is the field, BB the curve's constant and WP   *)
(* the width of a coordinate.                                              *)
(***************************************************************************)
EXTENDS Ec
CONSTANTS P, BB, WP
NoKey == [ok |-> FALSE]
IsOdd(v) == v # <<>> /\ v[1] % 2 = 1
LiftX(x, odd) ==
  IF ~BLt(x, P) THEN NoKey
  ELSE LET r == EcRoot(P, EcRhs(P, BB, x))
       IN IF ~r.ok THEN NoKey
          ELSE [ok |-> TRUE, pt |-> <<x, IF IsOdd(r.v) = odd \/ r.v = <<>> THEN r.v ELSE BSub(P, r.v)>>]
(* 02/03 x, or 04 x y; 06/07 x y is accepted with y of that parity *)
ParseKey(b) ==
  IF Len(b) = 1 + WP /\ b[1] \in {2, 3}
  THEN LET r == LiftX(BFromBE(SubSeq(b, 2, 1 + WP)), b[1] = 3)
       IN IF r.ok THEN [ok |-> TRUE, pt |-> r.pt, compressed |-> TRUE] ELSE NoKey
  ELSE IF Len(b) = 1 + 2 * WP /\ b[1] \in {4, 6, 7}
  THEN LET x == BFromBE(SubSeq(b, 2, 1 + WP))
           y == BFromBE(SubSeq(b, 2 + WP, 1 + 2 * WP))
       IN IF EcOn(P, BB, x, y) /\ (b[1] # 4 => IsOdd(y) = (b[1] = 7))
          THEN [ok |-> TRUE, pt |-> <<x, y>>, compressed |-> FALSE] ELSE NoKey
  ELSE NoKey
KeyBytes(pt, compressed) ==
  IF compressed THEN <<IF IsOdd(pt[2]) THEN 3 ELSE 2>> \o BToBE(pt[1], WP) ELSE <<4>> \o BToBE(pt[1], WP) \o BToBE(pt[2], WP)
=============================================================================
