-------------------------------- MODULE Asm --------------------------------
(***************************************************************************)
(* The text of scripts.  Words and texts are sequences of code points.     *)
(***************************************************************************)
EXTENDS Script, Opcodes, SigHash, Der, Hashes

Digit0 == 48
IsDigit(c) == c >= Digit0 /\ c <= Digit0 + 9
HexVal(c) == IF IsDigit(c) THEN c - Digit0
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
HexCp(n) == IF n < 10 THEN Digit0 + n ELSE 87 + n
HexText(b) == [k \in 1 .. 2 * Len(b) |-> LET d == b[(k + 1) \div 2] IN HexCp(IF k % 2 = 1 THEN d \div 16 ELSE d % 16)]
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<Digit0 + n>> ELSE Append(DecText(n \div 10), Digit0 + (n % 10))
Minus == <<45>>

(* to text *)
IsSigItem(item) == Len(item) >= 9 /\ Len(item) <= 73 /\ item[1] = 48 /\ DerSig(SubSeq(item, 1, Len(item) - 1)).ok
WordOf(op, decode) ==
  IF ~op.push THEN Cps(OpName(op.v))
  ELSE IF Len(op.v) <= 4
       THEN LET x == ItemNum(op.v) IN (IF x.neg THEN Minus ELSE <<>>) \o DecText(LEValue(x.mag))
  ELSE IF decode /\ IsSigItem(op.v)
       THEN HexText(SubSeq(op.v, 1, Len(op.v) - 1)) \o Cps("[" \o HashTypeText(op.v[Len(op.v)]) \o "]")
  ELSE HexText(op.v)
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<32>> \o Spaced(Tail(ws))
ToAsm(s, decode) ==
  LET r == Ops(s)
  IN IF r.truncated THEN Cps("[error]") ELSE Spaced([k \in DOMAIN r.ops |-> WordOf(r.ops[k], decode)])

(* from text *)
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(t, i, w, acc) ==
  IF i > Len(t) THEN IF w = <<>> THEN acc ELSE Append(acc, w)
  ELSE IF IsSpace(t[i]) THEN WordsFrom(t, i + 1, <<>>, IF w = <<>> THEN acc ELSE Append(acc, w))
  ELSE WordsFrom(t, i + 1, Append(w, t[i]), acc)
Words(t) == WordsFrom(t, 1, <<>>, <<>>)

All(w, ok(_)) == w # <<>> /\ \A k \in DOMAIN w : ok(w[k])
RECURSIVE DecVal(_)
DecVal(w) == IF w = <<>> THEN <<>> ELSE BAdd(BMul(DecVal(SubSeq(w, 1, Len(w) - 1)), <<10>>), BFromInt(w[Len(w)] - Digit0))
BigInt31 == <<255, 255, 255, 127>>
IsHexCp(c) == HexVal(c) >= 0
OpPrefix == <<79, 80, 95>>
WordScript(w) ==
  LET neg == w[1] = 45
      digits == IF neg THEN Tail(w) ELSE w
      value == DecVal(digits)
  IN IF Len(w) >= 3 /\ SubSeq(w, 1, 3) = OpPrefix
     THEN LET name == FromCps(w) IN IF name \in DOMAIN OpNumber THEN [ok |-> TRUE, v |-> <<OpNumber[name]>>] ELSE [ok |-> FALSE]
     ELSE IF All(digits, IsDigit) /\ BLe(value, BigInt31)
          THEN [ok |-> TRUE, v |-> PushNum(neg /\ value # <<>>, value)]
     ELSE IF Len(w) % 2 = 0 /\ All(w, IsHexCp)
          THEN [ok |-> TRUE, v |-> Push([k \in 1 .. Len(w) \div 2 |-> 16 * HexVal(w[2 * k - 1]) + HexVal(w[2 * k])])]
     ELSE [ok |-> FALSE]
FromAsm(t) ==
  LET ws == [k \in DOMAIN Words(t) |-> WordScript(Words(t)[k])]
  IN IF \A k \in DOMAIN ws : ws[k].ok THEN [ok |-> TRUE, v |-> Concat([k \in DOMAIN ws |-> ws[k].v])] ELSE [ok |-> FALSE]

(* Scripts that survive the round trip: canonical pushes, named operations, no hex word read as a number *)
Unambiguous(s) ==
  LET r == Ops(s) IN
  /\ ~r.truncated
  /\ s = Concat([k \in DOMAIN r.ops |-> IF r.ops[k].push THEN Push(r.ops[k].v) ELSE <<r.ops[k].v>>])
  /\ \A k \in DOMAIN r.ops :
       IF ~r.ops[k].push THEN OpName(r.ops[k].v) \notin {"OP_UNKNOWN", "OP_INVALIDOPCODE"}
       ELSE IF Len(r.ops[k].v) <= 4 THEN LET x == ItemNum(r.ops[k].v) IN NumItem(x.neg, x.mag) = r.ops[k].v
       ELSE LET w == HexText(r.ops[k].v) IN ~(All(w, IsDigit) /\ BLe(DecVal(w), BigInt31))
=============================================================================
