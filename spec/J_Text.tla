------------------------------- MODULE J_Text -------------------------------
(* Judges base58, addresses and derivation paths (C19, C20, C27).            *)
EXTENDS JudgeBase, Text58, Cashaddr, Coins, Texts, Path
PathH == BPow2(31)
Res58(r) == IF r.ok THEN B_(r.v) ELSE "!Base58Error"
ChrS == <<Cps("S")[1], Cps("?")[1]>>
IsMinikey(t) == Len(t) \in {22, 30} /\ Ok58(t) /\ t[1] = ChrS[1] /\ Sha256(Append(t, ChrS[2]))[1] = 0

\* the address a text stands for
ConsText(prefix, t) == prefix \o <<58>> \o t
AddressOf(t, net) ==
  LET p == Cps(net.prefix)
      up == [k \in DOMAIN p |-> IF IsLower(p[k]) THEN p[k] - 32 ELSE p[k]]
      cash(x) == LET r == CashDecode(x) IN IF r.ok /\ (r.ok => r.prefix \in {p, up} /\ Len(r.hash) = 20) THEN r ELSE NoCash
      tries == <<cash(t), cash(ConsText(p, t)), cash(ConsText(up, t))>>
      good == {k \in 1..3 : tries[k].ok}
      b == Dec58Check(t)
  IN IF good # {} THEN LET r == tries[CHOOSE k \in good : TRUE] IN [ok |-> TRUE, kind |-> r.kind, hash |-> r.hash]
     ELSE IF b.ok /\ (b.ok => Len(b.v) = 21 /\ b.v[1] \in {net.p2pkh, net.p2sh})
          THEN [ok |-> TRUE, kind |-> IF b.v[1] = net.p2pkh THEN 0 ELSE 1, hash |-> Tail(b.v)]
     ELSE [ok |-> FALSE]
AddressText(a, net) == Enc58Check(<<IF a.kind = 0 THEN net.p2pkh ELSE net.p2sh>> \o a.hash)
AddressRes(a, net, coin) == LET s == S_(AddressText(a, net)) IN
  L_(<<S_(IF a.kind = 0 THEN "P2PKH_Address" ELSE "P2SH_Address"), B_(a.hash), s, s, S_(coin), "t", "t", T_(a.kind = 0)>>)

PathRes(r) == IF r.ok THEN L_([k \in DOMAIN r.v |-> N_(r.v[k])]) ELSE "!ValueError"
\* list elements: ["i", sign, hex], or another kind of thing
Index(x) == LET m == Mag(x[3]) IN [ok |-> ~IsNeg(x[2], m) /\ BLt(m, BPow2(32)), v |-> m]

V(e) ==
  CASE e.op = "b58" -> LET b == Hx(e.a[1]) IN Same(e, L_(<<S_(Enc58(b)), IF b = <<>> THEN "!Base58Error" ELSE B_(b)>>))
    [] e.op = "b58d" ->
         LET t == Cps(e.a[1])
         IN Same(e, IF Ok58(t) THEN L_(<<B_(Dec58(t)), "t">>) ELSE "!Base58Error")
    [] e.op = "b58c" -> LET b == Hx(e.a[1]) IN Same(e, L_(<<S_(Enc58Check(b)), B_(b)>>))
    [] e.op = "b58dc" -> Same(e, Res58(Dec58Check(Cps(e.a[1]))))
    [] e.op = "minikey" -> Same(e, T_(IsMinikey(Cps(e.a[1]))))
    [] e.op = "cash" ->
         LET r == CashDecode(Cps(e.a[1]))
         IN Same(e, IF r.ok THEN L_(<<S_(FromCps(r.prefix)), I_(r.kind), B_(r.hash)>>) ELSE "!ValueError")
    [] e.op = "address" ->     \* text, coin
         LET net == Net(e.a[2]) a == AddressOf(Cps(e.a[1]), net)
         IN Same(e, IF a.ok THEN AddressRes(a, net, e.a[2]) ELSE "!ValueError")
    [] e.op = "addresses" ->   \* two texts, coin: equal exactly when kind and hash are
         LET net == Net(e.a[3]) a == AddressOf(Cps(e.a[1]), net) b == AddressOf(Cps(e.a[2]), net)
         IN Same(e, IF a.ok /\ b.ok THEN L_(<<T_(a = b), T_(a # b), IF a = b THEN "t" ELSE "n">>) ELSE "!ValueError")
    [] e.op = "path" -> Same(e, LET r == ParsePath(Cps(e.a[1])) IN L_(<<PathRes(r), T_(r.ok)>>))
    [] e.op = "path_bad" -> Same(e, "!TypeError")
    [] e.op = "path_build" ->
         LET xs == e.a[1]
             ints == \A k \in DOMAIN xs : xs[k][1] = "i"
             ix == [k \in DOMAIN xs |-> IF xs[k][1] = "i" THEN Index(xs[k]) ELSE [ok |-> FALSE]]
             good == ints /\ (ints => \A k \in DOMAIN xs : ix[k].ok)
         IN IF good THEN LET vs == [k \in DOMAIN xs |-> ix[k].v] IN Same(e, L_(<<S_(FromCps(PathText(vs))), PathRes([ok |-> TRUE, v |-> vs])>>))
            ELSE IF ints THEN Same(e, "!ValueError")
            ELSE OneOf(e, {"!TypeError"} \cup (IF \E k \in DOMAIN xs : xs[k][1] = "i" /\ ~ix[k].ok THEN {"!ValueError"} ELSE {}))
    [] OTHER -> "unknown operation " \o e.op
=============================================================================
