------------------------------- MODULE MC_Asm -------------------------------
(* Texts of all sequences of up to Len3 pieces, each a push or an operation *)
(* of an interesting kind: what is unambiguous survives the round trip, and *)
(* reading any text gives a script whose text reads back to itself.         *)
EXTENDS Asm, Secp, TLC
CONSTANT Pieces
VARIABLE c

SigExample == Hx("300602010102017f")  \* never range-checked here
Scripts == { <<>>, <<0>>, <<79>>, <<80>>, <<81>>, <<96>>, <<1, 5>>, <<1, 128>>, <<2, 0, 128>>, <<2, 5, 0>>, <<4, 255, 255, 255, 127>>,
  <<4, 255, 255, 255, 255>>, <<5, 0, 0, 0, 0, 1>>, <<5, 33, 71, 72, 54, 71>>, <<5, 171, 0, 0, 0, 0>>, <<5, 33, 71, 72, 54, 72>>,
  <<76, 1, 7>>, <<97>>, <<177>>, <<185>>, <<186>>, <<255>>, <<106>>, <<9>> \o SigExample \o <<65>>, <<9>> \o SigExample \o <<0>>, <<3, 1>> }
Texts == {"", "0", "-0", "-1", "16", "17", "00", "007", "0a", "a", "-a", "-", "OP_0", "OP_FALSE", "OP_NOP2", "OP_", "OP_X", "op_0", "2147483647",
  "2147483648", "-2147483647", "-2147483648", "21474836480", "FF", "fF00", "x", "0x00", "[error]", "+1", "OP_PUSHDATA1"}
Init == c \in {<<"s", <<>>, <<>>>>} \cup {<<"t", a, b>> : a, b \in Texts}
Next == c[1] = "s" /\ Len(c[3]) < Pieces /\ \E p \in Scripts : c' = <<"s", c[2] \o p, Append(c[3], 1)>>
RoundTrip == c[1] = "s" => (Unambiguous(c[2]) => FromAsm(ToAsm(c[2], FALSE)) = [ok |-> TRUE, v |-> c[2]])
Truncated == c[1] = "s" => (Ops(c[2]).truncated <=> ToAsm(c[2], FALSE) = Cps("[error]"))
TextParts ==    \* a text reads as its words do, one after the other, however spaced
  c[1] = "t" => LET a == FromAsm(Cps(c[2])) b == FromAsm(Cps(c[3])) both == FromAsm(Cps(c[2] \o " " \o c[3])) IN
    /\ both.ok <=> (a.ok /\ b.ok)
    /\ both.ok => both.v = a.v \o b.v
    /\ FromAsm(Cps("  " \o c[2] \o "\t\n" \o c[3] \o " ")) = both
Stable ==       \* the text of what was read reads back to the same script, if that is unambiguous
  c[1] = "t" => LET a == FromAsm(Cps(c[2])) IN (a.ok /\ Unambiguous(a.v)) => FromAsm(ToAsm(a.v, TRUE)) = a
=============================================================================
