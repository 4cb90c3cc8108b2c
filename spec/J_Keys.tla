------------------------------- MODULE J_Keys -------------------------------
(* Judges signatures, keys, arithmetic, encryption, hierarchical keys        *)
(* (C21 - C26).  Where the outcome is not a function of the arguments (made  *)
(* signatures and encryptions), e.r is the list of values obtained and the   *)
(* judgement a relation; <<"!", name>> is an exception.                      *)
EXTENDS JudgeBase, Outputs, Ecies, Bip32, Text58, Coins, Texts, Secp, Base64, Messages, SigHash

(* Interpretation of the parameters *)
KdfSha(b) == LET k == Sha512(b) IN [iv |-> SubSeq(k, 1, 16), e |-> SubSeq(k, 17, 32), m |-> SubSeq(k, 33, 64)]
EncAes(k, m) == AesCbcEnc(k.e, k.iv, m)
DecAes(k, m) == AesCbcDec(k.e, k.iv, m)
MacSha(k, b) == HmacSha256(k.m, b)
Hard == BPow2(31)
\* the hash of a hierarchical key's child; outcomes that cannot be found by search are forced, and listed in the event
Forced == Events[i].a[3]
LastOf(b) == IF Len(b) < 4 THEN b ELSE SubSeq(b, Len(b) - 3, Len(b))
HmReal(chain, msg) ==
  LET hit == {k \in DOMAIN Forced : Forced[k][1] \in {"*", Hex(chain)} /\ Forced[k][2] = Hex(LastOf(msg))}
      h == IF hit = {} THEN HmacSha512(chain, msg) ELSE Hx(Forced[CHOOSE k \in hit : \A j \in hit : k <= j][3])
  IN [l |-> BFromBE(SubSeq(h, 1, 32)), r |-> SubSeq(h, 33, 64)]

The(S) == CHOOSE v \in S : TRUE
Inv == "!InvalidSignatureError"
VErr == "!ValueError"
Num32(h) == Mag(h)                 \* of hex text
IsErr(r) == r[1] = "!"
Raised(e, names) == Require(e, IsErr(e.r) /\ (IsErr(e.r) => e.r[2] \in names), "must be refused")
Txt(cps) == FromCps(cps)

(* Hashers <<name, argument>> and messages <<"b", hex>> or <<"s", text>> *)
HashOf(h, m) ==
  CASE h[1] = "sha256" -> Sha256(m) [] h[1] = "double" -> Sha256d(m) [] h[1] = "sha512" -> Sha512(m) [] h[1] = "hash160" -> Hash160(m)
    [] h[1] = "sha1" -> Sha1(m) [] h[1] = "const" -> Hx(h[2]) [] OTHER -> m
HashDef(h, m, def) == IF h[1] = "default" THEN HashOf(<<def, "">>, m) ELSE HashOf(h, m)
MsgB(m) == IF m[1] = "s" THEN Utf8(m[2]) ELSE Hx(m[2])
\* bytes given as such or in base64
Given_(x) == IF x[1] = "s" THEN B64Dec(Cps(x[2])) ELSE [is |-> "good", v |-> Hx(x[2])]
MsgHash(m, h) == HashDef(h, SignedText(MsgB(m)), "double")

(* Keys *)
PrivD(h, c, coin) == [d |-> Num32(h), compressed |-> c, coin |-> coin]
PrivText(k) == L_(<<B_(BToBE(k.d, 32)), T_(k.compressed), S_(k.coin), B_(KeyBytes(PubOf(k.d), k.compressed))>>)
PubText(q) == L_(<<B_(KeyBytes(q.pt, q.compressed)), S_(q.coin)>>)
Wif(d, compressed, coin) == Enc58Check(<<Net(coin).wif>> \o BToBE(d, 32) \o (IF compressed THEN <<1>> ELSE <<>>))
FromWif(t) ==
  LET b == Dec58Check(t)
  IN IF ~b.ok THEN BadOp
     ELSE IF Len(b.v) # 33 /\ ~(Len(b.v) = 34 /\ (Len(b.v) = 34 => b.v[34] = 1)) THEN BadOp
     ELSE LET d == BFromBE(SubSeq(b.v, 2, 33)) coin == CoinOfWif(b.v[1])
          IN IF ~InRange(d) \/ coin = "" THEN BadOp ELSE Made([d |-> d, compressed |-> Len(b.v) = 34, coin |-> coin])
ChrS == <<Cps("S")[1], Cps("?")[1]>>
FromMini(t) ==
  IF Len(t) \in {22, 30} /\ Ok58(t) /\ (Len(t) \in {22, 30} => t[1] = ChrS[1] /\ Sha256(Append(t, ChrS[2]))[1] = 0)
  THEN LET d == BFromBE(Sha256(t)) IN IF InRange(d) THEN Made([d |-> d, compressed |-> FALSE, coin |-> "Bitcoin"]) ELSE BadOp
  ELSE BadOp
HexBytes(t) == IF Len(t) % 2 # 0 \/ \E k \in DOMAIN t : HexVal(t[k]) < 0 THEN BadOp
               ELSE Made([k \in 1 .. Len(t) \div 2 |-> 16 * HexVal(t[2 * k - 1]) + HexVal(t[2 * k])])
FromBytes(b) == IF Len(b) # 32 THEN BadOp ELSE IF ~InRange(BFromBE(b)) THEN BadOp ELSE Made([d |-> BFromBE(b), compressed |-> TRUE, coin |-> "Bitcoin"])
FromHex(t) == LET b == HexBytes(t) IN IF b.ok THEN FromBytes(b.k) ELSE BadOp
FromText(t) == IF Len(t) = 64 THEN FromHex(t) ELSE IF FromMini(t).ok THEN FromMini(t) ELSE FromWif(t)
PrivRes(r) == IF r.ok THEN PrivText(r.k) ELSE VErr
PubOfBytes(b, coin) == LET q == ParseKey(b) IN IF q.ok THEN Made([pt |-> q.pt, compressed |-> q.compressed, coin |-> coin]) ELSE BadOp
P2pkhText(h, coin) == Enc58Check(<<Net(coin).p2pkh>> \o h)
XpubStr(q, chain) == Enc58Check(Net(q.coin).xpub \o <<0, 0, 0, 0, 0, 0, 0, 0, 0>> \o chain \o KeyBytes(q.pt, TRUE))
\* everything that is said about a public key; hierarchical ones print as extended keys
PubFormsAs(q, printed) ==
  LET c == KeyBytes(q.pt, TRUE) u == KeyBytes(q.pt, FALSE) own == KeyBytes(q.pt, q.compressed)
  IN L_(<<B_(own), S_(Hex(own)), S_(printed), B_(c), B_(u), S_(Hex(c)), S_(Hex(u)), N_(q.pt[1]), N_(q.pt[2]), T_(q.compressed), S_(q.coin),
          B_(Hash160(own)), B_(Hash160(c)), B_(Hash160(u)), S_(P2pkhText(Hash160(own), q.coin)),
          L_([k \in DOMAIN CoinNames |-> S_(P2pkhText(Hash160(own), CoinNames[k]))]),
          S_(P2pkhText(Hash160(u), q.coin)), S_(P2pkhText(Hash160(c), q.coin)),
          PubText([q EXCEPT !.compressed = ~q.compressed]), PubText(q),
          B_(ScriptPk([pt |-> q.pt, compressed |-> q.compressed])), B_(ScriptPkh(Hash160(own)))>>)
PubForms(q) == PubFormsAs(q, Hex(KeyBytes(q.pt, q.compressed)))
PubFormsX(q, chain) == PubFormsAs(q, XpubStr(q, chain))
PrivForms(k) ==
  LET b == BToBE(k.d, 32)
      wifs == [j \in 1..8 |-> S_(Wif(k.d, j % 2 = 1, CoinNames[(j + 1) \div 2]))]
  IN L_(<<PrivText(k), N_(k.d), S_(Hex(b)), S_(Hex(Sha256(b))), S_(Wif(k.d, k.compressed, k.coin)), L_(wifs),
          S_(Wif(k.d, ~k.compressed, k.coin)), S_(Wif(k.d, k.compressed, "BitcoinTestnet")),
          PrivText(FromWif(Cps(Wif(k.d, k.compressed, k.coin))).k), "t", "t", "t", "t">>)

(* Histories of key arithmetic: keys [priv, d or pt, compressed, coin, x]; x is the chain code of a hierarchical key, *)
(* which only its own public key shares: what is computed from it is a plain key.                                      *)
First(k) ==
  CASE k[1] = "priv" -> [priv |-> TRUE, x |-> <<>>] @@ PrivD(k[2], k[3], k[4])
    [] k[1] = "xprv" -> [priv |-> TRUE, x |-> Hx(k[3])] @@ PrivD(k[2], TRUE, k[4])
    [] k[1] = "xpub" -> [priv |-> FALSE, x |-> Hx(k[3]), pt |-> ParseKey(Hx(k[2])).pt, compressed |-> TRUE, coin |-> k[4]]
    [] OTHER -> [priv |-> FALSE, x |-> <<>>, pt |-> ParseKey(Hx(k[2])).pt, compressed |-> ParseKey(Hx(k[2])).compressed, coin |-> k[3]]
KText(k) ==
  IF k.priv THEN L_(<<B_(BToBE(k.d, 32)), T_(k.compressed), S_(k.coin), B_(KeyBytes(PubOf(k.d), k.compressed)),
                      S_(Hex(Sha256(BToBE(k.d, 32)))), S_(Wif(k.d, k.compressed, k.coin))>>)
  ELSE LET own == KeyBytes(k.pt, k.compressed)
       IN L_(<<B_(own), S_(k.coin), T_(k.compressed), S_(IF k.x = <<>> THEN Hex(own) ELSE XpubStr(k, k.x)), S_(P2pkhText(Hash160(own), k.coin))>>)
Keep(r, k) == IF r.ok THEN Made([r.k EXCEPT !.x = <<>>]) ELSE BadOp
Public_(k) == IF k.priv THEN [priv |-> FALSE, x |-> k.x] @@ PublicOf(k) ELSE k
PubRes(r) == IF r.ok THEN Made([priv |-> FALSE, x |-> <<>>, pt |-> r.k.pt, compressed |-> r.k.compressed, coin |-> r.k.coin]) ELSE BadOp
KStep(ks, s) ==
  LET k == ks[s[2]] IN
  CASE s[1] = "pub" -> Made(Public_(k))
    [] s[1] = "comp" -> Made([k EXCEPT !.compressed = ~k.compressed, !.x = <<>>])
    [] s[1] = "add" -> Keep(IF k.priv THEN AddPriv(k, Num32(s[3])) ELSE AddPub(k, Num32(s[3])), k)
    [] s[1] = "mul" -> Keep(IF k.priv THEN MulPriv(k, Num32(s[3])) ELSE MulPub(k, Num32(s[3])), k)
    [] s[1] = "comb" -> PubRes(Combine([j \in DOMAIN s[3] |-> ks[s[3][j]]]))
    [] s[1] = "ecdh" -> PubRes(MulPub(ks[s[3]], k.d))
    [] s[1] = "share" -> LET h == HashDef(s[5], Hx(s[4]), "sha256")
                         IN IF Len(h) # 32 THEN BadOp ELSE PubRes(SharedSecret(k, ks[s[3]], BFromBE(h)))
    [] OTHER -> BadOp          \* an operand of the wrong length
\* a step that fails leaves a copy of its operand, so that later numbers do not depend on it
RECURSIVE KRun(_, _, _, _)
KRun(ks, ss, j, out) ==
  IF j > Len(ss) THEN L_(<<L_(out), L_([k \in DOMAIN ks |-> KText(ks[k])])>>)
  ELSE \* the result is computed once
       The({KRun(q[1], ss, j + 1, q[2]) : q \in {<<Append(ks, IF r.ok THEN r.k ELSE ks[ss[j][2]]), Append(out, IF r.ok THEN "ok" ELSE VErr)>> : r \in {KStep(ks, ss[j])}}})

(* Made signatures *)
GoodSig(pt, z, s) == s.ok /\ (s.ok => Accepts(pt, z, s.r, s.s))
RecOf(z, s) == IF s.ok THEN RecoverKey(z, s.r, s.s, s.id) ELSE NoKey
RecGives(pt, z, s) == LET q == RecOf(z, s) IN q.ok /\ (q.ok => q.pt = pt)
MadeDer(pt, z, b) == LET s == DerSig(b) IN GoodSig(pt, z, s) /\ (s.ok => DerEnc(s.r, s.s) = b)
MadeRec(pt, z, b) == LET s == RecSig(b) IN GoodSig(pt, z, s) /\ RecGives(pt, z, s)
MadeMsg(k, z, b) == LET m == MsgToRec(b) IN m.ok /\ (m.ok => MadeRec(PubOf(k.d), z, m.v) /\ RecToMsg(m.v, k.compressed) = b)
Z(h) == BFromBE(h)
KeyRes(q) == IF q.ok THEN B_(KeyBytes(q.pt, TRUE)) ELSE Inv
\* the recoverable form of a given message signature: bad when it is none
MsgSig(x) == LET g == Given_(x) m == IF g.is = "bad" THEN DerFail ELSE MsgToRec(g.v)
             IN [is |-> IF ~m.ok THEN "bad" ELSE g.is, v |-> IF m.ok THEN m.v ELSE <<>>]
Alt(e, g, expected, refusal) == IF g.is = "loose" THEN OneOf(e, {expected, refusal}) ELSE Same(e, expected)

(* Hierarchical keys *)
XVer(x) == IF x.priv THEN Net(x.coin).xprv ELSE Net(x.coin).xpub
XText(x) == Enc58Check(XBytes(x, XVer(x)))
NodeText(x) ==
  LET id == IdOf(x)
  IN L_(<<S_(IF x.priv THEN "BIP32PrivateKey" ELSE "BIP32PublicKey"), S_(XText(x)), B_(id), B_(SubSeq(id, 1, 4)), B_(x.chain), I_(x.depth), N_(x.n), B_(x.fp),
          S_(x.coin), B_(PubKeyBytes(x)), IF x.priv THEN S_(XText(Neuter(x))) ELSE S_(XText(x))>>)
Chunks(b) == [k \in 1 .. Len(b) \div 64 |-> SubSeq(b, 64 * k - 63, 64 * k)]
RECURSIVE FirstMaster(_)
FirstMaster(cs) == IF cs = <<>> THEN BadOp
                   ELSE LET m == MasterOf(BFromBE(SubSeq(Head(cs), 1, 32)), SubSeq(Head(cs), 33, 64), "Bitcoin") IN IF m.ok THEN m ELSE FirstMaster(Tail(cs))
FromX(t) == LET b == Dec58Check(t) IN IF b.ok THEN XParse(b.v, CoinOfXprv, CoinOfXpub) ELSE BadOp
Root(r) == CASE r[1] = "seed" -> LET h == HmReal(Utf8("Bitcoin seed"), Hx(r[2])) IN MasterOf(h.l, h.r, r[3])
             [] r[1] = "random" -> FirstMaster(Chunks(Hx(r[2])))
             [] OTHER -> FromX(Cps(r[2]))
XStep(xs, s) ==
  LET x == xs[s[2]]
      n == IF s[1] \in {"child", "safe"} THEN Mag(s[4]) ELSE <<>>
  IN CASE s[1] = "pub" -> Made(Neuter(x))
       [] s[1] = "parse" -> FromX(Cps(XText(x)))
       [] IsNeg(s[3], n) -> BadOp
       [] s[1] = "child" -> ChildOf(x, n)
       [] OTHER -> SafeChild(x, n)
RECURSIVE XRun(_, _, _, _)
XRun(xs, ss, j, out) ==
  IF j > Len(ss) THEN L_(<<L_(out), L_([k \in DOMAIN xs |-> NodeText(xs[k])])>>)
  ELSE The({XRun(q[1], ss, j + 1, q[2]) : q \in {<<Append(xs, IF r.ok THEN r.k ELSE xs[ss[j][2]]), Append(out, IF r.ok THEN "ok" ELSE VErr)>> : r \in {XStep(xs, ss[j])}}})

SigObj(raw) ==
  LET n == Len(raw) der == SubSeq(raw, 1, n - 1) s == DerSig(der) h == raw[n]
      missing == raw = <<255>>
      always(rest) == L_(<<B_(raw), B_(raw), S_(Hex(raw)), T_(~missing), "t", "t", "f", "t", "t">> \o rest)
  IN IF missing THEN always(<<Inv, Inv, Inv, Inv, Inv>>)
     ELSE IF n = 0 THEN Inv
     ELSE IF ~s.ok THEN Inv
     ELSE always(<<B_(der), I_(h), B_(Compact(s.r, s.s)), N_(s.r), N_(s.s), I_(BaseType(h)), T_(AnyoneCanPay(h)), S_(HashTypeText(h)),
                   S_(Hex(der) \o "[" \o HashTypeText(h) \o "]"), "t">>)

V21(e) ==
  CASE e.op = "der2c" -> LET s == DerSig(Hx(e.a[1])) IN Same(e, IF s.ok THEN B_(Compact(s.r, s.s)) ELSE Inv)
    [] e.op = "c2der" -> LET s == CompactSig(Hx(e.a[1])) IN Same(e, IF s.ok THEN B_(DerEnc(s.r, s.s)) ELSE Inv)
    [] e.op = "bad_type" -> Same(e, Inv)
    [] e.op = "sigobj" -> Same(e, SigObj(Hx(e.a[1])))
    [] e.op = "sighash" -> LET h == e.a[1] IN Same(e, L_(<<I_(h), I_(BaseType(h)), T_(AnyoneCanPay(h)), S_(HashTypeText(h))>>))
    [] e.op = "msgform" ->     \* d, compressed, message, hasher: recoverable and message form of one signature
         LET k == PrivD(e.a[1], e.a[2], "Bitcoin") IN
         IF IsErr(e.r) THEN "msgform: must not fail"
         ELSE LET rec == Hx(e.r[1]) m == Hx(e.r[2])
              IN Require(e, Len(rec) = 65 /\ m = RecToMsg(rec, k.compressed) /\ Cps(e.r[3]) = B64Enc(m), "the forms of one signature differ")
    [] OTHER -> "unknown operation " \o e.op

V22(e) ==
  CASE e.op = "priv_forms" ->  \* d, compressed, coin
         Same(e, PrivForms(PrivD(e.a[1], e.a[2], e.a[3])))
    [] e.op = "priv_x" -> Same(e, PrivForms(PrivD(e.a[1], TRUE, e.a[3])))                    \* d, chain code, coin
    [] e.op = "pub_of_x" -> Same(e, PubFormsX(PublicOf(PrivD(e.a[1], TRUE, e.a[3])), Hx(e.a[2])))
    [] e.op = "pub_x" -> LET q == PubOfBytes(Hx(e.a[1]), e.a[3]) IN Same(e, PubFormsX(q.k, Hx(e.a[2])))
    [] e.op = "priv_bytes" -> Same(e, PrivRes(FromBytes(Hx(e.a[1]))))
    [] e.op = "priv_int" ->
         LET m == Mag(e.a[2])
         IN IF IsNeg(e.a[1], m) \/ BLe(BPow2(256), m) THEN OneOf(e, {VErr, "!OverflowError"}) ELSE Same(e, PrivRes(FromBytes(BToBE(m, 32))))
    [] e.op = "priv_hex" -> Same(e, PrivRes(FromHex(Cps(e.a[1]))))
    [] e.op = "priv_arb" -> LET d == BMod(BFromBE(Hx(e.a[1])), N) IN Same(e, PrivRes(FromBytes(BToBE(d, 32))))
    [] e.op = "priv_mini" -> Same(e, PrivRes(FromMini(Cps(e.a[1]))))
    [] e.op = "priv_wif" -> Same(e, PrivRes(FromWif(Cps(e.a[1]))))
    [] e.op = "priv_text" -> Same(e, PrivRes(FromText(Cps(e.a[1]))))
    [] e.op = "priv_random" -> LET good == {j \in DOMAIN e.a : FromBytes(Hx(e.a[j])).ok}
         IN Same(e, PrivRes(FromBytes(Hx(e.a[CHOOSE j \in good : \A k \in good : j <= k]))))
    [] e.op = "bad_kind" -> Same(e, "!TypeError")
    [] e.op = "pub_bytes" -> LET q == PubOfBytes(Hx(e.a[1]), "Bitcoin") IN Same(e, IF q.ok THEN PubForms(q.k) ELSE VErr)
    [] e.op = "pub_hex" -> LET b == HexBytes(Cps(e.a[1]))
                               q == IF b.ok THEN PubOfBytes(b.k, "Bitcoin") ELSE BadOp
                           IN Same(e, IF q.ok THEN PubForms(q.k) ELSE VErr)
    [] e.op = "pub_of" -> LET k == PrivD(e.a[1], e.a[2], e.a[3]) IN Same(e, PubForms(PublicOf(k)))
    [] e.op = "pub_point" ->
         LET x == Mag(e.a[2]) y == Mag(e.a[4]) out(s, m) == IsNeg(s, m) \/ BLe(BPow2(256), m)
         IN IF out(e.a[1], x) \/ out(e.a[3], y) THEN OneOf(e, {VErr, "!OverflowError"})
            ELSE LET q == PubOfBytes(<<4>> \o BToBE(x, 32) \o BToBE(y, 32), "Bitcoin") IN Same(e, IF q.ok THEN PubForms(q.k) ELSE VErr)
    [] e.op = "priv_same" ->   \* two private keys
         LET a == PrivD(e.a[1], e.a[2], "Bitcoin") b == PrivD(e.a[3], e.a[4], "Bitcoin") same == a.d = b.d
         IN Same(e, L_(<<T_(same), T_(~same), IF same THEN "t" ELSE "n", T_(same), T_(~same), IF same THEN "t" ELSE "n", "f", "f">>))
    [] OTHER -> "unknown operation " \o e.op

V23(e) ==
  CASE e.op = "arith" -> Same(e, KRun([k \in DOMAIN e.a[1] |-> First(e.a[1][k])], e.a[2], 1, <<>>))
    [] e.op = "arith_bad" -> Same(e, "!" \o e.a[4])
    [] OTHER -> "unknown operation " \o e.op

V24(e) ==
  CASE e.op = "sign" ->        \* d, message, hasher
         LET h == HashDef(e.a[3], Hx(e.a[2]), "sha256") pt == PubOf(Num32(e.a[1]))
         IN IF Len(h) # 32 THEN Raised(e, {"ValueError"})
            ELSE IF IsErr(e.r) THEN "sign: must not fail"
            ELSE Require(e, MadeDer(pt, Z(h), Hx(e.r[1])) /\ e.r[2] = e.r[1] /\ MadeRec(pt, Z(h), Hx(e.r[3])) /\ e.r[4] = e.r[3],
                         "not a canonical low signature of the key over the hash, or not the same twice")
    [] e.op = "sign_msg" ->    \* d, compressed, message, hasher
         LET k == PrivD(e.a[1], e.a[2], "Bitcoin") h == MsgHash(e.a[3], e.a[4])
         IN IF e.a[4][1] = "none" \/ Len(h) # 32 THEN Raised(e, {"ValueError"})
            ELSE IF IsErr(e.r) THEN "sign_msg: must not fail"
            ELSE Require(e, MadeMsg(k, Z(h), Hx(e.r[1])) /\ Cps(e.r[2]) = B64Enc(Hx(e.r[1])) /\ e.r[3] = e.r[1],
                         "not a low signature of the key over the message, or not the same twice")
    [] e.op = "verify_der" ->  \* key, signature, message, hasher
         LET h == HashDef(e.a[4], Hx(e.a[3]), "sha256") s == DerSig(Hx(e.a[2])) q == ParseKey(Hx(e.a[1]))
         IN IF ~s.ok THEN OneOf(e, {Inv} \cup (IF Len(h) # 32 THEN {VErr} ELSE {}))
            ELSE Same(e, IF Len(h) # 32 THEN VErr ELSE T_(Accepts(q.pt, Z(h), s.r, s.s)))
    [] e.op = "verify_rec" ->
         LET h == HashDef(e.a[4], Hx(e.a[3]), "sha256") s == RecSig(Hx(e.a[2])) q == ParseKey(Hx(e.a[1]))
         IN IF ~s.ok THEN OneOf(e, {Inv} \cup (IF Len(h) # 32 THEN {VErr} ELSE {}))
            ELSE Same(e, IF Len(h) # 32 THEN VErr ELSE T_(Accepts(q.pt, Z(h), s.r, s.s)))
    [] e.op = "recover" ->     \* signature, message, hasher
         LET h == HashDef(e.a[3], Hx(e.a[2]), "sha256") s == RecSig(Hx(e.a[1]))
         IN IF ~s.ok THEN OneOf(e, {Inv} \cup (IF Len(h) # 32 THEN {VErr} ELSE {}))
            ELSE Same(e, IF Len(h) # 32 THEN VErr ELSE KeyRes(RecOf(Z(h), s)))
    [] e.op = "from_msg" ->    \* signature, message, hasher
         LET g == MsgSig(e.a[1]) h == MsgHash(e.a[2], e.a[3]) bad == e.a[3][1] = "none" \/ Len(h) # 32
         IN IF g.is = "bad" THEN OneOf(e, {Inv} \cup (IF bad THEN {VErr} ELSE {}))
            ELSE IF bad THEN OneOf(e, {VErr} \cup (IF g.is = "loose" THEN {Inv} ELSE {})) ELSE Alt(e, g, KeyRes(RecOf(Z(h), RecSig(g.v))), Inv)
    [] e.op = "verify_msg" ->  \* key, signature, message, hasher
         LET g == MsgSig(e.a[2]) h == MsgHash(e.a[3], e.a[4]) bad == e.a[4][1] = "none" \/ Len(h) # 32
             s == IF g.is = "bad" THEN DerFail ELSE RecSig(g.v)
         IN IF ~s.ok THEN OneOf(e, {Inv} \cup (IF bad THEN {VErr} ELSE {}))
            ELSE IF bad THEN OneOf(e, {VErr} \cup (IF g.is = "loose" THEN {Inv} ELSE {}))
            ELSE Alt(e, g, T_(Accepts(ParseKey(Hx(e.a[1])).pt, Z(h), s.r, s.s)), Inv)
    [] e.op = "verify_addr" -> \* signature, message, address (<<"text", t>>, <<"obj", hash, coin>> or another kind), hasher
         LET g == MsgSig(e.a[1]) h == MsgHash(e.a[2], e.a[4]) bad == e.a[4][1] = "none" \/ Len(h) # 32
             s == IF g.is = "bad" THEN DerFail ELSE RecSig(g.v)
             q == IF bad \/ ~s.ok THEN NoKey ELSE RecOf(Z(h), s)
             ad == IF e.a[3][1] = "obj" THEN [ok |-> TRUE, v |-> <<0>> \o Hx(e.a[3][2])]
                   ELSE IF e.a[3][1] = "text" THEN Dec58Check(Cps(e.a[3][2])) ELSE [ok |-> FALSE]
             adErr == IF ad.ok THEN {} ELSE IF e.a[3][1] = "text" THEN {VErr} ELSE {"!TypeError"}
             hash == IF ad.ok /\ (ad.ok => ad.v # <<>>) THEN Tail(ad.v) ELSE <<>>
         IN IF bad THEN OneOf(e, {VErr} \cup adErr \cup (IF ~s.ok \/ g.is = "loose" THEN {"f"} ELSE {}))
            ELSE IF ~q.ok THEN OneOf(e, {"f"} \cup adErr)
            ELSE IF ~ad.ok THEN OneOf(e, adErr \cup (IF g.is = "loose" THEN {"f"} ELSE {}))
            ELSE Alt(e, g, T_(Accepts(q.pt, Z(h), s.r, s.s) /\ hash \in {Hash160(KeyBytes(q.pt, TRUE)), Hash160(KeyBytes(q.pt, FALSE))}), "f")
    [] OTHER -> "unknown operation " \o e.op

V25(e) ==
  CASE e.op = "encrypt" ->     \* d, compressed, magic, message: two encryptions, one in base64, and their decryptions
         LET d == Num32(e.a[1]) magic == Hx(e.a[3]) m == MsgB(e.a[4]) ml == Len(magic)
         IN IF IsErr(e.r) THEN "encrypt: must not fail"
            ELSE LET a == Hx(e.r[1]) b == B64Dec(Cps(e.r[2]))
                     len == ml + 33 + 16 * ((Len(m) \div 16) + 1) + 32
                 IN IF b.is # "good" \/ Len(a) # len THEN "encrypt: not the layout of an encrypted message"
                    ELSE IF Len(b.v) # len THEN "encrypt: not the layout of an encrypted message"
                    ELSE Require(e, Decrypt(d, magic, a) = Made(m) /\ Decrypt(d, magic, b.v) = Made(m)
                                    /\ e.r[3] = Hex(m) /\ e.r[4] = Hex(m) /\ SubSeq(a, ml + 1, ml + 33) # SubSeq(b.v, ml + 1, ml + 33),
                                 "not an encryption of the message under a fresh key")
    [] e.op = "decrypt" ->     \* d, magic, data
         LET g == Given_(e.a[3])
             r == IF g.is = "bad" THEN BadOp ELSE Decrypt(Num32(e.a[1]), Hx(e.a[2]), g.v)
         IN Alt(e, g, IF r.ok THEN B_(r.k) ELSE "!DecryptionError", "!DecryptionError")
    [] e.op = "aes_enc" ->     \* key, iv, data
         Same(e, B_(AesCbcEnc(Hx(e.a[1]), Hx(e.a[2]), Pad(Hx(e.a[3])))))
    [] e.op = "aes_dec" ->
         LET b == Hx(e.a[3])
         IN IF Len(b) % 16 # 0 \/ b = <<>> THEN Same(e, "!refused")
            ELSE LET r == Unpad(AesCbcDec(Hx(e.a[1]), Hx(e.a[2]), b)) IN Same(e, IF r.ok THEN B_(r.k) ELSE "!BadPaddingError")
    [] OTHER -> "unknown operation " \o e.op

V26(e) ==
  CASE e.op = "tree" ->        \* root, steps, forced hashes
         IF e.r = "skip" THEN "" ELSE LET r == Root(e.a[1]) IN Same(e, IF r.ok THEN XRun(<<r.k>>, e.a[2], 1, <<>>) ELSE VErr)
    [] OTHER -> "unknown operation " \o e.op

V(e) == LET p == IOEnv.VF_PID
        IN CASE p = "C21" /\ e.op \in {"from_msg", "recover"} -> V24(e)   \* the forms of signatures that carry their key
             [] p = "C21" -> V21(e) [] p = "C22" -> V22(e) [] p = "C23" -> V23(e) [] p = "C24" -> V24(e) [] p = "C25" -> V25(e) [] OTHER -> V26(e)
=============================================================================
