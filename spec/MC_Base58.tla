------------------------------ MODULE MC_Base58 ------------------------------
(* Change of base is a bijection that keeps leading zeros, on all digit      *)
(* strings of up to MaxLen digits in each of two bases, and keeps the value. *)
EXTENDS Base58, TLC
CONSTANTS A, B, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E d \in 0 .. (IF A > B THEN A ELSE B) - 1 : s' = Append(s, d)
RECURSIVE Value(_, _)
Value(t, b) == IF t = <<>> THEN 0 ELSE Value(SubSeq(t, 1, Len(t) - 1), b) * b + t[Len(t)]
In(b) == \A k \in DOMAIN s : s[k] < b
Exact(a, b) == In(a) => LET t == RebaseDef(s, a, b) IN
  /\ Rebase(s, a, b) = t
  /\ \A k \in DOMAIN t : t[k] < b
  /\ RebaseDef(t, b, a) = s
  /\ Value(t, b) = Value(s, a)
  /\ LeadingZeros(t, 1) = LeadingZeros(s, 1)
There == Exact(A, B)
Back == Exact(B, A)
=============================================================================
