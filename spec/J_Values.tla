------------------------------ MODULE J_Values ------------------------------
(* Judges comparisons (C30) and printed forms (C31).                         *)
EXTENDS JudgeBase, Texts, Coins, Text58, Secp, KeyForms
PtOfSecret(h) == EcMul(SecpP, BFromBE(Hx(h)), SecpG)
PtOfBytes(h) == ParseKey(Hx(h)).pt
Tweak(h) == BFromBE(Hx(h))
HexOf(v) == Hex(BToBE(v, 32))
RawField(raw) == LET b == Hx(raw) IN <<SubSeq(b, 1, 4), SubSeq(b, 5, 36), SubSeq(b, 37, 68), SubSeq(b, 69, 72), SubSeq(b, 73, 76), SubSeq(b, 77, 80), Sha256d(b)>>
VS == INSTANCE Values WITH PointOf <- PtOfSecret, PointIn <- PtOfBytes, NumOfText <- LAMBDA t : t,
        PtAdd <- LAMBDA p, h : EcAdd(SecpP, p, EcMul(SecpP, Tweak(h), SecpG)), PtMul <- LAMBDA p, h : EcMul(SecpP, Tweak(h), p),
        PtSum <- LAMBDA p, q : EcAdd(SecpP, p, q),
        SecretAdd <- LAMBDA s, h : HexOf(BMod(BAdd(Tweak(s), Tweak(h)), SecpN)), SecretMul <- LAMBDA s, h : HexOf(BMod(BMul(Tweak(s), Tweak(h)), SecpN)),
        HeaderFields <- RawField
\* a = b, b = a, a # b, b # a; whether they have hashes and whether those agree; b in {a}
Compared(a, b, r, equal) ==
  \E same \in {equal} : LET yes == T_(same) no == T_(~same)
      h(d) == d[1] \notin VS!Mutable
  IN /\ r[1] = yes /\ r[2] = yes /\ r[3] = no /\ r[4] = no
     /\ (h(a) => r[5] = "t") /\ (h(b) => r[6] = "t")
     /\ (r[5] = "t" /\ r[6] = "t") => ((same => r[7] = "t") /\ r[8] = yes)

(* Printed forms *)
RECURSIVE Compressed(_)
Compressed(d) == CASE d[1] = "pubb" -> ParseKey(Hx(d[2])).compressed
                   [] d[1] = "comp" -> ~Compressed(d[2])
                   [] d[1] \in {"padd", "pmul", "psum"} -> Compressed(d[2])
                   [] d[1] = "xpub" -> TRUE
                   [] OTHER -> d[3]
PubHex(d) == Hex(KeyBytes(VS!PointFor(d), Compressed(d)))
HashText(h) == Hex(Reverse(Hx(h)))
XpubText(d) == Enc58Check(Net(d[4]).xpub \o <<0, 0, 0, 0, 0, 0, 0, 0, 0>> \o Hx(d[3]) \o KeyBytes(PtOfSecret(d[2]), TRUE))
InText(d) == "TxInput(prev_hash=\"" \o HashText(d[2]) \o "\", prev_idx=" \o d[3] \o ", script_sig=\"" \o d[4] \o "\", sequence=" \o d[5] \o ")"
OutText(d) == "TxOutput(value=" \o d[2] \o ", script_pubkey=\"" \o d[3] \o "\")"
\* a number given as little-endian bytes, in decimal and in hex without leading zeros
LeDec(b) == BDec(BFromBE(Reverse(b)))
Digits16 == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
LeHex(b) == \* the bytes of a number have no leading zero
  CHOOSE t \in {IF m = <<>> THEN "0" ELSE IF m[1] < 16 THEN Digits16[m[1]] \o Hex(Tail(m)) ELSE Hex(m) : m \in {BToBE(n, Len(n)) : n \in {BFromBE(Reverse(b))}}} : TRUE
HeaderText(f) ==
  "Header(version=0x" \o LeHex(f[1]) \o ", prev_hash=" \o Hex(Reverse(f[2])) \o ", merkle_root=" \o Hex(Reverse(f[3])) \o ", timestamp=" \o LeDec(f[4])
  \o ", bits=0x" \o LeHex(f[5]) \o ", nonce=" \o LeDec(f[6]) \o ", hash=" \o Hex(Reverse(f[7])) \o ", height=" \o ToString(f[9]) \o ")"
StrText(d) ==
  CASE d[1] \in {"priv", "wif", "xprv", "sadd", "smul"} -> Hex(Sha256(Hx(VS!SecretOf(d))))
    [] d[1] \in {"pub", "pubb", "comp", "padd", "pmul", "psum"} -> PubHex(d)
    [] d[1] = "xpub" -> XpubText(d)
    [] d[1] = "script" -> d[2]
    [] d[1] \in {"p2pkh", "p2sh"} -> Enc58Check(<<IF d[1] = "p2pkh" THEN Net(d[3]).p2pkh ELSE Net(d[3]).p2sh>> \o Hx(d[2]))
    [] d[1] \in {"header", "hmix"} -> HeaderText(VS!Ident(d)[2])
    [] d[1] = "txin" -> InText(d)
    [] d[1] = "txout" -> OutText(d)
    [] d[1] = "tx" -> "Tx(version=" \o d[2] \o ", inputs=[" \o Join([k \in DOMAIN d[3] |-> InText(d[3][k])], ", ")
                      \o "], outputs=[" \o Join([k \in DOMAIN d[4] |-> OutText(d[4][k])], ", ") \o "], locktime=" \o d[5] \o ")"
    [] d[1] = "deriv" -> "BIP32Derivation(chain_code=bytes.fromhex(\"" \o d[2] \o "\"), n=" \o d[3] \o ", depth=" \o d[4]
                         \o ", parent_fingerprint=bytes.fromhex(\"" \o d[5] \o "\"))"
    [] OTHER -> ""
ReprText(d) ==
  CASE d[1] = "xprv" -> "BIP32PrivateKey(\"" \o StrText(d) \o "\")"
    [] d[1] = "xpub" -> "BIP32PublicKey(\"" \o StrText(d) \o "\")"
    [] d[1] \in {"txin", "txout", "tx", "deriv"} -> StrText(d)
    [] OTHER -> ""

V(e) ==
  CASE e.op = "eq" -> Require(e, Compared(e.a[1], e.a[2], e.r, VS!Same_(e.a[1], e.a[2])),
                              "equal exactly when they stand for the same")
    [] e.op = "self" -> Require(e, Compared(e.a[1], e.a[1], e.r, TRUE), "every value equals itself")
    \* compared, one of them then changed to what the third describes, and compared again
    [] e.op = "eqmut" -> Require(e, /\ Compared(e.a[1], e.a[2], e.r[1], VS!Same_(e.a[1], e.a[2]))
                                    /\ Compared(e.a[1], e.a[3], e.r[2], VS!Same_(e.a[1], e.a[3])), "equality follows changes")
    [] e.op = "str" -> Same(e, S_(StrText(e.a[1])))
    [] e.op = "repr" -> Same(e, S_(ReprText(e.a[1])))
    \* printing in every way shows nothing of the secret
    [] e.op = "leak" -> Same(e, "f")
    [] OTHER -> "unknown operation " \o e.op
=============================================================================
