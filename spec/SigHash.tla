------------------------------ MODULE SigHash ------------------------------
(* Signature hash types (0 .. 255): their parts and their text.             *)
EXTENDS Integers, Sequences
HexDigit(n) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>[n + 1]
AnyoneCanPay(h) == (h \div 128) % 2 = 1
ForkId(h) == (h \div 64) % 2 = 1
BaseType(h) == h % 32
SINGLE == 3
NONE == 2
RECURSIVE Bars(_)
Bars(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o "|" \o Bars(Tail(ws))
HashTypeText(h) ==
  LET rest == (h % 64) - (h % 4)      \* bits that have no name
  IN Bars((CASE h % 4 = 0 -> <<>> [] h % 4 = 1 -> <<"ALL">> [] h % 4 = 2 -> <<"NONE">> [] OTHER -> <<"SINGLE">>)
          \o (IF AnyoneCanPay(h) THEN <<"ANYONE_CAN_PAY">> ELSE <<>>)
          \o (IF ForkId(h) THEN <<"FORKID">> ELSE <<>>)
          \o (IF rest # 0 THEN <<"0x" \o HexDigit(rest \div 16) \o HexDigit(rest % 16)>> ELSE <<>>))
=============================================================================
