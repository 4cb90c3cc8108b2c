------------------------------- MODULE Base58 -------------------------------
(***************************************************************************)
(* Change of base of digit strings that keeps leading zeros: every leading *)
(* zero digit stays one digit.  Base58 is this from base 256 to base 58.   *)
(* Strings are big-endian.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* little-endian digits `acc` in base b, times m plus c
RECURSIVE MulAdd(_, _, _, _, _, _)
MulAdd(acc, k, b, m, c, out) ==
  IF k > Len(acc) THEN IF c = 0 THEN out ELSE MulAdd(acc, k, b, m, c \div b, Append(out, c % b))
  ELSE LET t == acc[k] * m + c IN MulAdd(acc, k + 1, b, m, t \div b, Append(out, t % b))
RECURSIVE Convert(_, _, _, _, _)
Convert(s, i, from, to, acc) == IF i > Len(s) THEN acc ELSE Convert(s, i + 1, from, to, MulAdd(acc, 1, to, from, s[i], <<>>))
RECURSIVE LeadingZeros(_, _)
LeadingZeros(s, i) == IF i > Len(s) \/ s[i] # 0 THEN i - 1 ELSE LeadingZeros(s, i + 1)
RebaseDef(s, from, to) ==
  LET z == LeadingZeros(s, 1)
      t == Convert(s, z + 1, from, to, <<>>)
  IN [k \in 1..z |-> 0] \o [k \in 1..Len(t) |-> t[Len(t) + 1 - k]]
\* evaluated faster by spec/java/Base58; MC_Base58 compares the two
Rebase(s, from, to) == RebaseDef(s, from, to)
=============================================================================
