------------------------------- MODULE J_Work -------------------------------
(* Judges calls of the bits/target/work functions (C10).                    *)
EXTENDS JudgeBase, Work, Hashes, Logs

Int_(n) == "i:" \o BDec(n)
WorkText(bits) == IF BitsOk(bits) THEN Int_(WorkOf(bits)) ELSE "!ValueError"
TargetText(bits) == IF BitsOk(bits) THEN Int_(Target(bits)) ELSE "!ValueError"
\* header fields of 80 raw bytes
Field(raw, off, n) == SubSeq(raw, off + 1, off + n)
HBits(raw) == Reverse(Field(raw, 72, 4))
\* signed 32-bit integer of 4 little-endian bytes
S32(b) == IF b[4] >= 128 THEN "i:-" \o BDec(BSub(BPow2(32), BFromLE(b))) ELSE Int_(BFromLE(b))
RECURSIVE JoinC(_)
JoinC(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "," \o JoinC(Tail(ss))
List_(ss) == IF ss = <<>> THEN "[]" ELSE "[" \o JoinC(ss) \o "]"

\* a double recorded as <<numerator in hex, k>>: n / 2^k
MainMax == Target(<<29, 0, 255, 255>>)
RightDifficulty(bits, r) ==
  IF ~BitsOk(bits) THEN r = <<"!", "ValueError">>
  ELSE r[1] # "!" /\ Near(BFromBE(Hx(r[1])), r[2], MainMax, Target(bits), 50)
RightLog(work, r) == r[1] # "!" /\ NearLog2(BFromBE(Hx(r[1])), r[2], work, 40)
RECURSIVE WorkUpTo(_, _)
WorkUpTo(start, bits) == IF bits = <<>> THEN start ELSE WorkUpTo(BAdd(start, WorkOf(Hx(Head(bits)))), Tail(bits))

V(e) ==
  CASE e.op = "bits_to_target" -> Same(e, TargetText(Hx(e.a[1])))
    [] e.op = "bits_to_work" -> Same(e, WorkText(Hx(e.a[1])))
    [] e.op = "target_to_bits" ->    \* sign, big-endian magnitude
         LET t == BFromBE(Hx(e.a[2]))
         IN Same(e, IF (e.a[1] = "-" /\ t # <<>>) \/ ~TargetOk(t) THEN "!ValueError"
                    ELSE Int_(BFromBE(ToBits(t))))
    [] e.op = "header" ->            \* raw, height
         LET raw == Hx(e.a[1])
             h == Sha256d(raw)
             w == WorkText(HBits(raw))
         IN Same(e, List_(<<
              S32(Field(raw, 0, 4)), "b:" \o Hex(Field(raw, 4, 32)), "b:" \o Hex(Field(raw, 36, 32)),
              Int_(BFromLE(Field(raw, 68, 4))), Int_(BFromBE(HBits(raw))), Int_(BFromLE(Field(raw, 76, 4))),
              "b:" \o Hex(h), "b:" \o e.a[1], "i:" \o ToString(e.a[2]),
              w, TargetText(HBits(raw)), Int_(BFromLE(h)), "s:" \o Hex(Reverse(h)) >>))
    [] e.op = "coin_header" ->
         LET raw == Hx(e.a[1])
         IN Same(e, List_(<< "b:" \o Hex(Sha256d(raw)), "b:" \o Hex(Field(raw, 4, 32)), Int_(BFromLE(Field(raw, 68, 4))),
                             Int_(BFromBE(HBits(raw))), WorkText(HBits(raw)) >>))
    [] e.op = "difficulty" -> Require(e, RightDifficulty(Hx(e.a[1]), e.r), "maximum target over target")
    \* work before, bits of the headers; the logarithm after the first, the second, ...
    [] e.op = "log2" -> Require(e, Len(e.r) = Len(e.a[2]) /\ \A k \in DOMAIN e.r :
                                      \A w \in {WorkUpTo(BFromBE(Hx(e.a[1])), SubSeq(e.a[2], 1, k))} :
                                         RightLog(w, e.r[k][1]) /\ RightLog(w, e.r[k][2]) /\ e.r[k][3] = "t", "logarithm of the chain's work")
    [] OTHER -> "unknown operation " \o e.op
=============================================================================
