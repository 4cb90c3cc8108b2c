-------------------------------- MODULE J_Tx --------------------------------
(* Judges transactions (C12 - C14).                                          *)
EXTENDS JudgeBase, Outputs, Text58, Coins, Texts, Secp, Dates
T == INSTANCE Tx WITH HashLen <- 32, W4 <- 4, W8 <- 8, HashOf <- Sha256d
WI == INSTANCE Wire

\* a transaction as [version, [[hash, idx, script, seq]...], [[value, script]...], locktime], numbers as little-endian hex
In_(a) == [hash |-> Hx(a[1]), idx |-> Hx(a[2]), script |-> Hx(a[3]), seq |-> Hx(a[4])]
Out_(a) == [value |-> Hx(a[1]), script |-> Hx(a[2])]
Tx_(a) == [ver |-> Hx(a[1]), ins |-> [k \in DOMAIN a[2] |-> In_(a[2][k])], outs |-> [k \in DOMAIN a[3] |-> Out_(a[3][k])], lock |-> Hx(a[4])]

SNum(b) == LET v == BFromLE(b) w == Len(b)
           IN IF BLt(v, BPow2(8 * w - 1)) THEN N_(v) ELSE "i:-" \o BDec(BSub(BPow2(8 * w), v))
UNum(b) == N_(BFromLE(b))
InText(x) == L_(<<B_(x.hash), UNum(x.idx), B_(x.script), UNum(x.seq)>>)
OutText(x) == L_(<<SNum(x.value), B_(x.script)>>)
TxText(t) == L_(<<SNum(t.ver), L_([k \in DOMAIN t.ins |-> InText(t.ins[k])]), L_([k \in DOMAIN t.outs |-> OutText(t.outs[k])]), UNum(t.lock)>>)
Read(r, text(_)) == IF r.ok THEN L_(<<text(r.v), I_(r.n)>>) ELSE "!Exception"

\* sums of signed 64-bit values: positive and negative parts
RECURSIVE SumSigned(_, _, _)
SumSigned(outs, pos, neg) ==
  IF outs = <<>> THEN IF BLe(neg, pos) THEN N_(BSub(pos, neg)) ELSE "i:-" \o BDec(BSub(neg, pos))
  ELSE LET v == BFromLE(outs[1].value)
       IN IF BLt(v, BPow2(63)) THEN SumSigned(Tail(outs), BAdd(pos, v), neg) ELSE SumSigned(Tail(outs), pos, BAdd(neg, BSub(BPow2(64), v)))

Kind(h) == CASE BaseType(h) = NONE -> "none" [] BaseType(h) = SINGLE -> "single" [] OTHER -> "all"
\* index from 0; sh: the hash type
SigHashOf(t, n, value, script, sh) ==
  Sha256d(WI!Flatten(T!SigParts(t, n + 1, BToLE(value, 8), script, AnyoneCanPay(sh), Kind(sh), <<sh % 256, (sh \div 256) % 256, sh \div 65536, 0>>)))
\* hash request [index, sign, value, script, type (-1: default, -2: a plain integer)]
HashText(t, q) ==
  LET v == Mag(q[3]) IN
  IF q[1] < 0 \/ q[1] >= Len(t.ins) THEN "!IndexError"
  ELSE IF IsNeg(q[2], v) THEN "!ValueError"
  ELSE IF q[5] = -2 THEN "!TypeError"
  ELSE B_(SigHashOf(t, q[1], v, Hx(q[4]), IF q[5] = -1 THEN 65 ELSE q[5]))

\* a transaction that changes between hashes
Step(t, s) ==
  CASE s[1] \in {"hash", "view", "preds", "json"} -> t
    [] s[1] = "ver" -> [t EXCEPT !.ver = Hx(s[2])]
    [] s[1] = "lock" -> [t EXCEPT !.lock = Hx(s[2])]
    [] s[1] = "in" -> [t EXCEPT !.ins[s[2] + 1] = In_(s[3])]
    [] s[1] = "seq" -> [t EXCEPT !.ins[s[2] + 1].seq = Hx(s[3])]
    [] s[1] = "prev" -> [t EXCEPT !.ins[s[2] + 1].hash = Hx(s[3])]
    [] s[1] = "idx" -> [t EXCEPT !.ins[s[2] + 1].idx = Hx(s[3])]
    [] s[1] = "spk" -> [t EXCEPT !.outs[s[2] + 1].script = Hx(s[3])]
    [] s[1] = "script" -> [t EXCEPT !.ins[s[2] + 1].script = Hx(s[3])]
    [] s[1] = "out" -> [t EXCEPT !.outs[s[2] + 1] = Out_(s[3])]
    [] s[1] = "value" -> [t EXCEPT !.outs[s[2] + 1].value = Hx(s[3])]
    [] s[1] = "add_in" -> [t EXCEPT !.ins = Append(@, In_(s[2]))]
    [] s[1] = "add_out" -> [t EXCEPT !.outs = Append(@, Out_(s[2]))]
    [] s[1] = "pop_in" -> [t EXCEPT !.ins = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> [t EXCEPT !.outs = SubSeq(@, 1, Len(@) - 1)]
(* JSON *)
Flag(f, k) == (f \div k) % 2 = 1
ScriptJson(s) == "{asm=" \o S_(FromCps(ToAsm(s, TRUE))) \o ",hex=" \o S_(Hex(s)) \o "}"
AddrText(ver, h) == S_(Enc58Check(<<ver>> \o h))
OutScriptJson(s, f, coin) ==
  LET plain == ",hex=" \o S_(Hex(s))
      asm == "asm=" \o S_(FromCps(ToAsm(s, FALSE)))
      c == Classify(s)
  IN IF ~Flag(f, 16) THEN "{" \o asm \o plain \o "}"
     ELSE IF c.kind = "pubkeyhash" THEN "{address=" \o AddrText(Net(coin).p2pkh, c.hash) \o "," \o asm \o plain \o ",type=s:pubkeyhash}"
     ELSE IF c.kind = "pubkey"
          THEN LET b == KeyBytes(c.key.pt, c.key.compressed)
               IN "{address=" \o AddrText(Net(coin).p2pkh, Hash160(b)) \o "," \o asm \o plain \o ",pubkey=" \o S_(Hex(b)) \o ",type=s:pubkey}"
     ELSE "{" \o asm \o plain \o ",type=s:" \o c.kind \o "}"
InJson(x, f, n) ==
  LET num == IF Flag(f, 1) /\ n >= 0 THEN "nInput=" \o I_(n) \o "," ELSE ""
  IN IF T!IsCoinbaseIn(x)
     THEN "{coinbase=" \o S_(Hex(x.script)) \o "," \o num \o "sequence=" \o UNum(x.seq) \o ",text=" \o S_(FromUtf8(x.script)) \o "}"
     ELSE "{hash=" \o S_(Hex(x.hash)) \o ",idx=" \o UNum(x.idx) \o "," \o num \o "script=" \o ScriptJson(x.script) \o ",sequence=" \o UNum(x.seq) \o "}"
OutJson(x, f, coin, n) ==
  (IF Flag(f, 2) /\ n >= 0 THEN "{nOutput=" \o I_(n) \o "," ELSE "{")
    \o "script=" \o OutScriptJson(x.script, f, coin) \o ",value=" \o SNum(x.value) \o "}"
LockMeaning(l) ==
  LET v == BFromLE(l) IN
  IF v = <<>> THEN "s:valid in any block"
  ELSE IF BLt(v, BFromInt(500000000)) THEN "s:valid in blocks with height greater than " \o Grouped(BToInt(v))
  ELSE "s:valid in blocks with MTP greater than " \o UtcText(v) \o " UTC"
TxJson(t, f, coin) ==
  "{hash=" \o S_(Hex(Reverse(Sha256d(T!TxBytes(t))))) \o ",locktime=" \o UNum(t.lock)
    \o (IF Flag(f, 8) THEN ",locktimeMeaning=" \o LockMeaning(t.lock) ELSE "")
    \o ",nInputs=" \o I_(Len(t.ins)) \o ",nOutputs=" \o I_(Len(t.outs))
    \o (IF Flag(f, 4) THEN ",size=" \o I_(T!TxSize(t)) ELSE "")
    \o ",version=" \o SNum(t.ver)
    \o ",vin=" \o L_([k \in DOMAIN t.ins |-> InJson(t.ins[k], f, k - 1)])
    \o ",vout=" \o L_([k \in DOMAIN t.outs |-> OutJson(t.outs[k], f, coin, k - 1)]) \o "}"

ViewText(t) ==
  L_(<<B_(T!TxBytes(t)), L_([k \in DOMAIN t.ins |-> L_(<<B_(T!InBytes(t.ins[k])), I_(T!InSize(t.ins[k]))>>)]),
       L_([k \in DOMAIN t.outs |-> L_(<<B_(T!OutBytes(t.outs[k])), I_(T!OutSize(t.outs[k]))>>)])>>)
PredText(t, height, time) ==
  L_(<<T_(T!IsFinal(t, height, time, BFromInt(500000000))), T_(T!InputsFinal(t)),
       L_([k \in DOMAIN t.ins |-> L_(<<T_(t.ins[k].seq = T!MaxSeq), T_(T!IsCoinbaseIn(t.ins[k]))>>)]),
       SumSigned(t.outs, <<>>, <<>>)>>)
StepText(u, s) ==
  CASE s[1] = "hash" -> HashText(u, s[2])
    [] s[1] = "view" -> ViewText(u)
    [] s[1] = "preds" -> PredText(u, Mag(s[2]), Mag(s[3]))
    [] s[1] = "json" -> TxJson(u, s[2], s[3])
    [] OTHER -> L_(<<B_(Sha256d(T!TxBytes(u))), I_(T!TxSize(u))>>)
RECURSIVE Replay(_, _, _, _)
Replay(t, steps, k, acc) ==
  IF k > Len(steps) THEN acc
  ELSE LET u == Step(t, steps[k])
       IN Replay(u, steps, k + 1, Append(acc, StepText(u, steps[k])))

BigTx(n, m, k) == [ver |-> <<1, 0, 0, 0>>, ins |-> [j \in 1..n |-> [hash |-> T!ZeroHash, idx |-> <<0, 0, 0, 0>>, script |-> Fill(81, k), seq |-> <<255, 255, 255, 255>>]],
                   outs |-> [j \in 1..m |-> [value |-> <<1, 0, 0, 0, 0, 0, 0, 0>>, script |-> Fill(82, k)]], lock |-> <<0, 0, 0, 0>>]

\* a number as a field of w bytes, refused when it does not fit
Fits(v, neg, w, signed) ==
  IF neg THEN signed /\ BLe(v, BPow2(8 * w - 1)) ELSE BLt(v, BPow2(IF signed THEN 8 * w - 1 ELSE 8 * w))
FieldLE(v, neg, w) == BToLE(IF neg THEN BSub(BPow2(8 * w), v) ELSE v, w)
WithField(t, kind, f) ==
  CASE kind = "ver" -> [t EXCEPT !.ver = f] [] kind = "lock" -> [t EXCEPT !.lock = f]
    [] kind = "idx" -> [t EXCEPT !.ins[1].idx = f] [] kind = "seq" -> [t EXCEPT !.ins[1].seq = f]
    [] OTHER -> [t EXCEPT !.outs[1].value = f]
FieldText(t, kind, sign, mag) ==
  LET v == Mag(mag)
      neg == IsNeg(sign, v)
      w == IF kind = "value" THEN 8 ELSE 4
  IN IF ~Fits(v, neg, w, kind \in {"ver", "value"}) THEN "[!Exception,!Exception,!Exception]"
     ELSE LET u == WithField(t, kind, FieldLE(v, neg, w))
          IN "[" \o B_(T!TxBytes(u)) \o ","
               \o (CASE kind \in {"idx", "seq"} -> B_(T!InBytes(u.ins[1])) [] kind = "value" -> B_(T!OutBytes(u.outs[1])) [] OTHER -> B_(T!TxBytes(u)))
               \o "," \o B_(Sha256d(T!TxBytes(u))) \o "]"

V(e) ==
  CASE e.op = "field" -> Same(e, FieldText(Tx_(e.a[1]), e.a[2], e.a[3], e.a[4]))   \* transaction, field, number
    [] e.op = "serialize" ->
         LET t == Tx_(e.a[1]) b == T!TxBytes(t) h == Sha256d(b)
         IN Same(e, L_(<<B_(b), S_(Hex(b)), I_(Len(b)), I_(Len(b)), B_(h), S_(Hex(Reverse(h))),
                         L_([k \in DOMAIN t.ins |-> L_(<<B_(T!InBytes(t.ins[k])), S_(Hex(T!InBytes(t.ins[k]))), I_(T!InSize(t.ins[k]))>>)]),
                         L_([k \in DOMAIN t.outs |-> L_(<<B_(T!OutBytes(t.outs[k])), S_(Hex(T!OutBytes(t.outs[k]))), I_(T!OutSize(t.outs[k]))>>)]),
                         "t", "t", "t", I_(Len(b)), "[]">>))
    [] e.op = "big" ->         \* inputs, outputs, script length
         LET b == T!TxBytes(BigTx(e.a[1], e.a[2], e.a[3]))
         IN Same(e, L_(<<I_(Len(b)), I_(Len(b)), B_(Sha256d(b)), "t", I_(Len(b)), "!Exception">>))
    [] e.op = "parse" -> Same(e, Read(T!ReadTx(Hx(e.a[1])), TxText))
    [] e.op = "parse_in" -> Same(e, Read(T!ReadIn(Hx(e.a[1])), InText))
    [] e.op = "parse_out" -> Same(e, Read(T!ReadOut(Hx(e.a[1])), OutText))
    [] e.op = "equal" -> Same(e, T_(Tx_(e.a[1]) = Tx_(e.a[2])))
    [] e.op = "sighash" ->     \* transaction, requests
         LET t == Tx_(e.a[1]) IN Same(e, L_([k \in DOMAIN e.a[2] |-> HashText(t, e.a[2][k])]))
    [] e.op = "history" ->     \* transaction, steps
         Same(e, L_(Replay(Tx_(e.a[1]), e.a[2], 1, <<>>)))
    [] e.op = "sh_parts" ->
         Same(e, L_(<<I_(BaseType(e.a[1])), T_(AnyoneCanPay(e.a[1])), S_(HashTypeText(e.a[1]))>>))
    [] e.op = "final" ->       \* transaction, height, time (big-endian hex)
         LET t == Tx_(e.a[1])
         IN Same(e, L_(<<T_(T!IsFinal(t, Mag(e.a[2]), Mag(e.a[3]), BFromInt(500000000))), T_(T!InputsFinal(t)),
                         L_([k \in DOMAIN t.ins |-> T_(t.ins[k].seq = T!MaxSeq)])>>))
    [] e.op = "coinbase" ->
         LET t == Tx_(e.a[1])
         IN Same(e, L_([k \in DOMAIN t.ins |-> T_(T!IsCoinbaseIn(t.ins[k]))] \o <<T_(T!IsCoinbaseIn(t.ins[1]))>>))
    [] e.op = "total" -> Same(e, SumSigned(Tx_(e.a[1]).outs, <<>>, <<>>))
    [] e.op = "json" -> Same(e, TxJson(Tx_(e.a[1]), e.a[2], e.a[3]))
    [] e.op = "json_in" -> Same(e, InJson(In_(e.a[1]), e.a[2], e.a[3]))
    [] e.op = "json_out" -> Same(e, OutJson(Out_(e.a[1]), e.a[2], e.a[3], e.a[4]))
    [] e.op = "size_io" -> LET t == Tx_(e.a[1]) IN Same(e, I_(T!TxSize(t)))
    [] OTHER -> "unknown operation " \o e.op
=============================================================================
