------------------------------ MODULE J_Script ------------------------------
(* Judges scripts: pushes, parsing, text and classification (C15 - C18).     *)
EXTENDS JudgeBase, Outputs, Readers, Text58, Coins, Texts, Secp

OpText(op) == IF op.push THEN B_(op.v) ELSE I_(op.v)
Texts_(ops) == [k \in DOMAIN ops |-> OpText(ops[k])]
OpsText(s) == LET r == Ops(s) IN L_(<<L_(Texts_(r.ops)), T_(r.truncated)>>)
\* pushes as length and hash
Brief(ops) == [k \in DOMAIN ops |-> IF ops[k].push THEN L_(<<I_(Len(ops[k].v)), B_(Sha256(ops[k].v))>>) ELSE I_(ops[k].v)]
\* pieces: ["hex", text] or ["fill", byte, count]
PieceBytes(p) == IF p[1] = "hex" THEN Hx(p[2]) ELSE Fill(p[2], p[3])
Assemble(ps) == Concat([k \in DOMAIN ps |-> PieceBytes(ps[k])])
Scriptlet(a) == CASE a[1] \in {"b", "a"} -> Push(Hx(a[2]))
                  [] a[1] = "i" -> LET m == Mag(a[3]) IN PushNum(IsNeg(a[2], m), m)
                  [] a[1] = "o" -> <<a[2]>>
                  [] OTHER -> Hx(a[2])
Built(as) == Concat([k \in DOMAIN as |-> Scriptlet(as[k])])
Hexes(as) == [k \in DOMAIN as |-> Hx(as[k])]
BRes(r) == IF r.ok THEN B_(r.v) ELSE "!ScriptError"

AddressText(ver, h) == S_(Enc58Check(<<ver>> \o h))
KeyB(k) == B_(KeyBytes(k.pt, k.compressed))
ClassText(c, coin) ==
  CASE c.kind = "pubkeyhash" -> L_(<<S_("P2PKH_Address"), S_(c.kind), B_(c.hash), AddressText(Net(coin).p2pkh, c.hash), S_(coin), B_(ScriptOf(c))>>)
    [] c.kind = "scripthash" -> L_(<<S_("P2SH_Address"), S_(c.kind), B_(c.hash), AddressText(Net(coin).p2sh, c.hash), S_(coin), B_(ScriptOf(c))>>)
    [] c.kind = "pubkey" -> L_(<<S_("P2PK_Output"), S_(c.kind), KeyB(c.key),
                                 AddressText(Net(coin).p2pkh, Hash160(KeyBytes(c.key.pt, c.key.compressed))), S_(coin), B_(ScriptOf(c))>>)
    [] c.kind = "multisig" -> L_(<<S_("P2MultiSig_Output"), S_(c.kind), I_(c.threshold), L_([k \in DOMAIN c.keys |-> KeyB(c.keys[k])]), B_(ScriptOf(c))>>)
    [] c.kind = "op_return" -> L_(<<S_("OP_RETURN_Output"), S_(c.kind), B_(<<OP_RETURN>>)>>)
    [] OTHER -> L_(<<S_("Unknown_Output"), S_("unknown")>>)
Keys_(hs) == [k \in DOMAIN hs |-> ParseKey(Hx(hs[k]))]

V(e) ==
  CASE e.op = "push_item" ->
         LET b == Hx(e.a[1]) s == Push(b) IN Same(e, L_(<<B_(s), L_(<<B_(b)>>), "t">>))
    [] e.op = "push_big" ->    \* fill byte, length
         LET b == Fill(e.a[1], e.a[2]) s == Push(b)
         IN Same(e, L_(<<I_(Len(s)), B_(SubSeq(s, 1, 6)), B_(Sha256(s)), I_(1), "t">>))
    [] e.op = "push_int" ->
         LET m == Mag(e.a[2]) neg == IsNeg(e.a[1], m) IN Same(e, L_(<<B_(PushNum(neg, m)), Signed_(neg, m)>>))
    [] e.op = "item_to_int" -> LET x == ItemNum(Hx(e.a[1])) IN Same(e, Signed_(x.neg, x.mag))
    [] e.op = "push_and_drop" -> Same(e, B_(PushAndDrop(Hexes(e.a), OP_DROP, OP_2DROP)))
    [] e.op = "push_and_drop_fill" ->  \* a byte, its repetitions, the number of such items
         Same(e, LET b == PushAndDrop([k \in 1 .. e.a[3] |-> Fill(e.a[1], e.a[2])], OP_DROP, OP_2DROP) IN L_(<<I_(Len(b)), B_(Sha256(b))>>))
    [] e.op = "push_and_drop_item" -> Same(e, B_(PushAndDrop(<<Hx(e.a[1])>>, OP_DROP, OP_2DROP)))
    [] e.op = "build" ->       \* base, things appended: with <<, with push_many, split in two, the base afterwards
         LET s == Hx(e.a[1]) \o Built(e.a[2])
         IN Same(e, L_(<<B_(s), B_(s), B_(s), B_(Hx(e.a[1]))>>))
    [] e.op = "append_bad" -> Same(e, "!TypeError")
    [] e.op = "ops" -> Same(e, OpsText(Hx(e.a[1])))
    [] e.op = "readers" ->     \* a script, and what is asked of it in turn
         LET s == Hx(e.a[1])
             w == Said(s, e.a[2], <<Begun, Begun, Begun>>, <<>>)
         IN Same(e, L_([k \in DOMAIN w |-> L_(<<L_(Texts_(w[k].ops)), S_(w[k].ends)>>)]))
    [] e.op = "ops_parts" ->
         LET r == Ops(Assemble(e.a[1])) IN Same(e, L_(<<L_(Brief(r.ops)), T_(r.truncated)>>))
    [] e.op = "wrap" ->
         LET b == Hx(e.a[1]) o == Hx(e.a[2]) same == T_(b = o)
         IN Same(e, L_(<<I_(Len(b)), B_(b), B_(b), S_(Hex(b)), S_(Hex(b)), "t", "t", "t", "t", "t", same, same, same, "f">>))
    [] e.op = "template" ->
         LET r == Required(Hx(e.a[1]))
             items == SelectSeq(r, LAMBDA x : x.push)
         IN Same(e, L_(<<B_([k \in DOMAIN r |-> IF r[k].push THEN 76 ELSE r[k].v]), L_([k \in DOMAIN items |-> B_(items[k].v)])>>))
    [] e.op = "to_asm" -> Same(e, S_(FromCps(ToAsm(Hx(e.a[1]), e.a[2]))))
    [] e.op = "from_asm" -> Same(e, BRes(FromAsm(Cps(e.a[1]))))
    [] e.op = "asm_round" ->
         LET s == Hx(e.a[1])
         IN IF Unambiguous(s) THEN Same(e, B_(s)) ELSE Same(e, BRes(FromAsm(ToAsm(s, FALSE))))
    [] e.op = "classify" -> Same(e, ClassText(Classify(Hx(e.a[1])), e.a[2]))
    [] e.op = "canon_hash" ->  \* kind, hash, coin, another hash
         LET h == Hx(e.a[2]) k == [kind |-> e.a[1], hash |-> h]
         IN Same(e, IF Len(h) # 20 THEN "!ValueError"
                    ELSE L_(<<ClassText(k, e.a[3]), B_(ScriptOf(k)), "t", "t", T_(h = Hx(e.a[4])), "f">>))
    [] e.op = "canon_key" ->   \* key, coin
         LET k == ParseKey(Hx(e.a[1])) c == [kind |-> "pubkey", key |-> k]
         IN Same(e, IF ~k.ok THEN "!ValueError" ELSE LET h == Hash160(KeyBytes(k.pt, k.compressed))
                         IN L_(<<ClassText(c, e.a[2]), B_(ScriptOf(c)), "t", "t", B_(h), B_(h), AddressText(Net(e.a[2]).p2pkh, h)>>))
    [] e.op = "canon_multi" -> \* threshold, keys, coin
         LET ks == Keys_(e.a[2]) c == [kind |-> "multisig", threshold |-> e.a[1], keys |-> ks]
         IN Same(e, IF (\E k \in DOMAIN ks : ~ks[k].ok) \/ e.a[1] < 1 \/ e.a[1] > Len(ks) THEN "!ValueError"
                    ELSE L_(<<ClassText(c, e.a[3]), B_(ScriptOf(c)), "t", "t", I_(Len(ks)), B_(Hash160(ScriptOf(c))), "t">>))
    [] OTHER -> "unknown operation " \o e.op
=============================================================================
