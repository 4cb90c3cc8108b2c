------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* Bitcoin script as bytes: pushing data and numbers, and splitting a      *)
(* script into its operations.  Bytes are digits 0 .. Base - 1 (Base even; *)
(* 256 for real scripts).  Opcodes, in order:                              *)
(*   0 .. MaxDirect            push that many bytes                        *)
(*   MaxDirect + 1, + 2, + 3   push with a 1, 2 or 4 digit length          *)
(*   MaxDirect + 4             push of -1                                  *)
(*   MaxDirect + 5             reserved                                    *)
(*   then SmallInts opcodes    push of 1 .. SmallInts                      *)
(*   and all others.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Base, MaxDirect, SmallInts

LenOp(k) == MaxDirect + k           \* k = 1, 2, 3
LenWidth(k) == CASE k = 1 -> 1 [] k = 2 -> 2 [] OTHER -> 4
OpNeg1 == MaxDirect + 4
OpReserved == MaxDirect + 5
OpOf(n) == MaxDirect + 5 + n        \* n = 1 .. SmallInts
Half == Base \div 2                 \* the sign bit of a digit
NegOne == <<Half + 1>>

RECURSIVE LEDigits(_, _)
LEDigits(n, w) == IF w = 0 THEN <<>> ELSE <<n % Base>> \o LEDigits(n \div Base, w - 1)
RECURSIVE LEValue(_)
LEValue(s) == IF s = <<>> THEN 0 ELSE s[1] + Base * LEValue(Tail(s))
\* a length of 4 digits that no script here can reach (TLC's integers are 32 bit)
TooLong(s) == Len(s) = 4 /\ s[4] >= Half

(* The shortest script pushing `item` *)
Push(item) ==
  LET n == Len(item) IN
  IF n = 0 THEN <<0>>
  ELSE IF n = 1 /\ item[1] >= 1 /\ item[1] <= SmallInts THEN <<OpOf(item[1])>>
  ELSE IF item = NegOne THEN <<OpNeg1>>
  ELSE IF n <= MaxDirect THEN <<n>> \o item
  ELSE IF n < Base THEN <<LenOp(1)>> \o LEDigits(n, 1) \o item
  ELSE IF n < Base * Base THEN <<LenOp(2)>> \o LEDigits(n, 2) \o item
  ELSE <<LenOp(3)>> \o LEDigits(n, 4) \o item

(* The operation at position n of script s: pushed data or an opcode, and where the next one starts;
   ok is FALSE when it runs past the end *)
OpAt(s, n) ==
  LET op == s[n]
      Cut(from, k) == IF k > Len(s) + 1 - from THEN [ok |-> FALSE]
                      ELSE [ok |-> TRUE, push |-> TRUE, v |-> SubSeq(s, from, from + k - 1), next |-> from + k]
  IN IF op <= MaxDirect THEN Cut(n + 1, op)
     ELSE IF op <= MaxDirect + 3
          THEN LET w == LenWidth(op - MaxDirect)
                   l == SubSeq(s, n + 1, n + w)
               IN IF n + w > Len(s) \/ TooLong(l) THEN [ok |-> FALSE] ELSE Cut(n + 1 + w, LEValue(l))
     ELSE IF op = OpNeg1 THEN [ok |-> TRUE, push |-> TRUE, v |-> NegOne, next |-> n + 1]
     ELSE IF op > OpReserved /\ op <= OpOf(SmallInts)
          THEN [ok |-> TRUE, push |-> TRUE, v |-> <<op - OpReserved>>, next |-> n + 1]
     ELSE [ok |-> TRUE, push |-> FALSE, v |-> op, next |-> n + 1]

(* All operations in order; truncated when the last does not fit *)
RECURSIVE OpsFrom(_, _, _)
OpsFrom(s, n, acc) ==
  IF n > Len(s) THEN [ops |-> acc, truncated |-> FALSE]
  ELSE LET r == OpAt(s, n)
       IN IF ~r.ok THEN [ops |-> acc, truncated |-> TRUE]
          ELSE OpsFrom(s, r.next, Append(acc, [push |-> r.push, v |-> r.v]))
Ops(s) == OpsFrom(s, 1, <<>>)

(* Numbers: [neg, mag], mag little-endian digits without trailing zeros; zero is not negative *)
RECURSIVE Trim(_)
Trim(t) == IF t # <<>> /\ t[Len(t)] = 0 THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
NumItem(neg, mag) ==
  IF mag = <<>> THEN <<>>
  ELSE IF mag[Len(mag)] >= Half THEN Append(mag, IF neg THEN Half ELSE 0)
  ELSE IF neg THEN [mag EXCEPT ![Len(mag)] = @ + Half] ELSE mag
ItemNum(item) ==
  IF item = <<>> THEN [neg |-> FALSE, mag |-> <<>>]
  ELSE LET top == item[Len(item)]
           mag == Trim([item EXCEPT ![Len(item)] = @ % Half])
       IN [neg |-> top >= Half /\ mag # <<>>, mag |-> mag]
PushNum(neg, mag) == Push(NumItem(neg, mag))

(* Push some items, then drop them all, two at a time *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
PushAndDrop(items, drop, drop2) ==
  Concat([k \in DOMAIN items |-> Push(items[k])])
    \o [k \in 1 .. Len(items) \div 2 |-> drop2] \o (IF Len(items) % 2 = 1 THEN <<drop>> ELSE <<>>)
=============================================================================
