------------------------------- MODULE J_Words -------------------------------
(* Judges mnemonics: BIP39 and Electrum (C28, C29).                          *)
EXTENDS JudgeBase, Bip39, Electrum, Texts
Lists == JsonDeserialize(IOEnv.VF_SPEC \o "/wordlists.json")
EMVal == BPow2(32)
\* the first byte is all that is needed
Bytes_(bits) == [k \in 1 .. Len(bits) \div 8 |-> BitsVal(bits, 8 * k - 7, 8 * k)]
Sha39(bits) == LET h == Sha256(Bytes_(bits))[1] IN [k \in 1..8 |-> (h \div (2 ^ (8 - k))) % 2]

\* segments <<list, first, last>>
RECURSIVE ListOf(_)
ListOf(segs) == IF segs = <<>> THEN <<>>
                ELSE IF Len(segs) = 1 /\ segs[1][2] = 1 /\ segs[1][3] = Len(Lists[segs[1][1]]) THEN Lists[segs[1][1]]
                ELSE SubSeq(Lists[segs[1][1]], segs[1][2], segs[1][3]) \o ListOf(Tail(segs))
RECURSIVE SizeOf(_)
SizeOf(segs) == IF segs = <<>> THEN 0 ELSE segs[1][3] - segs[1][2] + 1 + SizeOf(Tail(segs))

Space(c) == c = 32 \/ (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 31) \/ c = 133 \/ c = 160 \/ c = 5760 \/ (c >= 8192 /\ c <= 8202)
            \/ c \in {8232, 8233, 8239, 8287, 12288}
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(t, k, from, acc) ==   \* from: where the word began, or 0
  IF k > Len(t) THEN IF from = 0 THEN acc ELSE Append(acc, FromCps(SubSeq(t, from, Len(t))))
  ELSE IF Space(t[k]) THEN SplitFrom(t, k + 1, 0, IF from = 0 THEN acc ELSE Append(acc, FromCps(SubSeq(t, from, k - 1))))
  ELSE SplitFrom(t, k + 1, IF from = 0 THEN k ELSE from, acc)
SplitText(s) == SplitFrom(Cps(s), 1, 0, <<>>)
Normal39(s) == Lower(Join(SplitText(Nfkd(s)), " "))

Found(ws, list) == [k \in DOMAIN ws |-> IndexIn(list, ws[k])]
Numbers(ix) == [k \in DOMAIN ix |-> ix[k] - 1]
Listed(ix) == \A k \in DOMAIN ix : ix[k] > 0
Counts39 == {12, 15, 18, 21, 24}
IsValid39(s, list) ==
  LET ws == SplitText(Normal39(s)) ix == Found(ws, list)
  IN Len(ws) \in Counts39 /\ Listed(ix) /\ (Listed(ix) => Valid39(Numbers(ix)))

(* Electrum *)
OldList == Lists["electrum_old.txt"]
NormalE(s) == Join(SplitText(Lower(s)), " ")
\* [ok, v: bytes]
OldDecode(s) ==
  LET ws == SplitText(Lower(s))
  IN IF Len(ws) \notin {12, 24} THEN [ok |-> FALSE]
     ELSE LET ix == Found(ws, OldList)
          IN IF ~Listed(ix) THEN [ok |-> FALSE]
             ELSE LET n == Len(ws) \div 3
                      vs == [k \in 1..n |-> OldValue(ix[3 * k - 2] - 1, ix[3 * k - 1] - 1, ix[3 * k] - 1)]
                  IN IF \E k \in 1..n : ~BLt(vs[k], EM) THEN [ok |-> FALSE]
                     ELSE [ok |-> TRUE, v |-> [k \in 1 .. 4 * n |-> BToBE(vs[((k - 1) \div 4) + 1], 4)[((k - 1) % 4) + 1]]]
HexSeed(s) == IsHex(Lower(s)) /\ Len(s) \in {32, 64}
OldValid(s) == OldDecode(s).ok \/ HexSeed(s)
OldEncode(b) ==
  Join([k \in 1 .. (3 * Len(b)) \div 4 |->
        LET g == (k - 1) \div 3 IN OldList[OldWords(BFromBE(SubSeq(b, 4 * g + 1, 4 * g + 4)))[((k - 1) % 3) + 1] + 1]], " ")
NewValid(s, prefix) ==
  LET h == Hex(HmacSha512(Utf8("Seed version"), Utf8(Lower(Nfkd(s)))))
  IN Len(prefix) <= Len(h) /\ SubSeq(h, 1, Len(prefix)) = prefix
\* the least n with size^n >= 2^bits
RECURSIVE LeastWords(_, _, _, _)
LeastWords(size, limit, n, power) == IF BLe(limit, power) THEN n ELSE LeastWords(size, limit, n + 1, BMul(power, size))

IsText(r) == Len(r) > 2 /\ SubSeq(r, 1, 2) = "s:"
TextOf(r) == SubSeq(r, 3, Len(r))
V(e) ==
  CASE e.op = "wordlist" -> LET l == Lists[e.a[1]] IN Same(e, L_(<<I_(Len(l)), B_(Sha256(Utf8(Join(l, " "))))>>))
    [] e.op = "norm39" -> Same(e, S_(Normal39(e.a[1])))
    [] e.op = "seed39" -> Same(e, B_(Pbkdf2Sha512(Utf8(Normal39(e.a[1])), Utf8("mnemonic") \o Utf8(Nfkd(e.a[2])), 2048)))
    [] e.op = "valid39" ->
         IF SizeOf(e.a[2]) # 2048 THEN Same(e, "!ValueError")
         ELSE LET list == ListOf(e.a[2]) ws == SplitText(Normal39(e.a[1])) ix == Found(ws, list)
                  bad == SelectSeq([k \in DOMAIN ws |-> <<ws[k], ix[k]>>], LAMBDA x : x[2] = 0)
                  badText == "!BadWords" \o L_([k \in DOMAIN bad |-> S_(bad[k][1])])
              IN IF Len(ws) \notin Counts39 THEN OneOf(e, {"f"} \cup (IF bad # <<>> THEN {badText} ELSE {}))
                 ELSE IF bad # <<>> THEN Same(e, badText)
                 ELSE Same(e, T_(Valid39(Numbers(ix))))
    [] e.op = "gen39" ->       \* segments, bits, entropy
         IF SizeOf(e.a[1]) # 2048 \/ e.a[2] \notin {128, 160, 192, 224, 256} THEN Same(e, "!ValueError")
         ELSE IF ~IsText(e.r) THEN Require(e, FALSE, "no mnemonic")
         ELSE LET t == TextOf(e.r) list == ListOf(e.a[1])
              IN IF Normal39(t) # t THEN Require(e, FALSE, "not normalized")
                 ELSE IF Len(SplitText(t)) # (e.a[2] * 3) \div 32 THEN Require(e, FALSE, "wrong number of words")
                 ELSE Require(e, IsValid39(t, list), "the generated mnemonic is not valid")
    [] e.op = "old_enc" ->
         LET h == e.a[1] low == Lower(h)
         IN Same(e, IF IsHex(low) /\ Len(h) \in {32, 64} THEN L_(<<S_(OldEncode(Hx(low))), S_(low), "t">>) ELSE "!ValueError")
    [] e.op = "old_dec" -> LET r == OldDecode(e.a[1]) IN Same(e, IF r.ok THEN S_(Hex(r.v)) ELSE "!ValueError")
    [] e.op = "old_valid" -> Same(e, T_(OldValid(e.a[1])))
    [] e.op = "new_valid" -> Same(e, T_(NewValid(e.a[1], e.a[2])))
    [] e.op = "norm_e" -> LET s == S_(NormalE(e.a[1])) IN Same(e, L_(<<s, s>>))
    [] e.op = "gen_old" ->
         IF e.a[1] \notin {12, 24} THEN Same(e, "!ValueError")
         ELSE Require(e, IsText(e.r) /\ (IsText(e.r) => IsHex(TextOf(e.r)) /\ Len(e.r) = 2 + (e.a[1] * 8) \div 3), "not a seed of that length")
    [] e.op = "gen_new" ->     \* segments, prefix, bits, skip_old, entropy
         IF SizeOf(e.a[1]) < 2048 \/ e.a[3] < 132 THEN Same(e, "!ValueError")
         ELSE IF ~IsText(e.r) THEN Require(e, FALSE, "no mnemonic")
         ELSE LET t == TextOf(e.r) ws == SplitText(t)
              IN IF Join(ws, " ") # t \/ ~Listed(Found(ws, ListOf(e.a[1]))) THEN Require(e, FALSE, "not words of the list")
                 ELSE IF Len(ws) # LeastWords(BFromInt(SizeOf(e.a[1])), BPow2(e.a[3]), 0, <<1>>) THEN Require(e, FALSE, "wrong number of words")
                 ELSE IF ~NewValid(t, e.a[2]) THEN Require(e, FALSE, "not valid for the prefix")
                 ELSE Require(e, ~(e.a[4] /\ OldValid(t)), "also a valid old seed")
    [] OTHER -> "unknown operation " \o e.op
=============================================================================
