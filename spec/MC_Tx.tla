-------------------------------- MODULE MC_Tx --------------------------------
(* Small transactions, exhaustively: the wire format is a prefix code whose  *)
(* reader inverts the writer; sizes are lengths; the signed parts of two     *)
(* transactions agree exactly when what the flags commit to agrees.          *)
EXTENDS Tx, TLC
CONSTANTS MaxIns, MaxOuts
VARIABLE c
Injective(b) == <<"hash", b>>
D(n) == <<n>>
Ins == [hash : {<<0>>, <<1>>}, idx : {<<0>>, <<3>>}, script : {<<>>, <<2>>}, seq : {<<0>>, <<3>>}]
Outs == [value : {<<0, 0>>, <<1, 0>>}, script : {<<>>, <<0>>}]
Lists(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
\* for pairs: fewer choices
PairIns == {[hash |-> <<h>>, idx |-> <<1>>, script |-> s, seq |-> <<q>>] : h \in {0, 1}, q \in {0, 3}, s \in {<<>>}}
PairOuts == [value : {<<0, 0>>, <<1, 0>>}, script : {<<>>}]
WithScripts(l) == [k \in DOMAIN l |-> [l[k] EXCEPT !.script = <<k>>]]
Txs(I, O, V) == [ver : V, ins : I, outs : O, lock : V]
Kinds == {<<FALSE, "all">>, <<TRUE, "all">>, <<FALSE, "none">>, <<TRUE, "none">>, <<FALSE, "single">>, <<TRUE, "single">>}

None == [ver |-> <<>>, ins |-> <<>>, outs |-> <<>>, lock |-> <<>>]
Init == c \in {<<"ins", [None EXCEPT !.ins = l], 0>> : l \in Lists(Ins, 0, MaxIns)}
           \cup {<<"first", x, 0>> : x \in Txs(Lists(PairIns, 1, 2), Lists(PairOuts, 0, 2), {D(0)})}
           \cup {<<"seqs", [None EXCEPT !.ins = [k \in DOMAIN q |-> [hash |-> <<0>>, idx |-> <<0>>, script |-> <<>>, seq |-> <<q[k]>>]]], 0>>
                 : q \in Lists({0, 2, 3}, 0, 2)}
Next == \/ c[1] = "ins" /\ \E o \in Lists(Outs, 0, MaxOuts) : c' = <<"one", [ver |-> D(2), ins |-> c[2].ins, outs |-> o, lock |-> D(2)], 0>>
        \/ c[1] = "first" /\ \E u \in Txs(Lists(PairIns, 1, 2) \cup {WithScripts(l) : l \in Lists(PairIns, 1, 2)}, Lists(PairOuts, 0, 2), {D(0), D(3)}) :
                              c' = <<"pair", c[2], u>>
        \/ c[1] = "seqs" /\ \E l \in 0..3, h \in 0..4, w \in 0..4 : c' = <<"fin", [ver |-> D(0), ins |-> c[2].ins, outs |-> <<>>, lock |-> D(l)], <<h, w>>>>
t == c[2]
Bytes == TxBytes(t)
RoundTrip == c[1] = "one" => \A tail \in {<<>>, <<0>>, <<3, 3, 3>>} : ReadTx(Bytes \o tail) = Got(t, Len(Bytes))
Truncated == c[1] = "one" => \A k \in 0 .. Len(Bytes) - 1 : ~ReadTx(SubSeq(Bytes, 1, k)).ok
Sizes == c[1] = "one" => TxSize(t) = Len(Bytes)
Commits ==
  c[1] = "pair" =>
    \A f \in Kinds : \A i \in 1 .. Len(t.ins) : i <= Len(c[3].ins) =>
      ((SigParts(t, i, <<0, 0>>, <<1>>, f[1], f[2], <<>>) = SigParts(c[3], i, <<0, 0>>, <<1>>, f[1], f[2], <<>>))
        <=> (Committed(t, i, f[1], f[2]) = Committed(c[3], i, f[1], f[2])))
\* finality never goes away as blocks go by; a locktime is a height or a time and only that one counts
Threshold == <<2>>
Finality ==
  c[1] = "fin" =>
    LET f(h, w) == IsFinal(t, OfNat(h), OfNat(w), Threshold) h == c[3][1] w == c[3][2] IN
    /\ f(h, w) => f(h + 1, w) /\ f(h, w + 1)
    /\ (t.lock[1] < 2 => f(h, 0) = f(h, w)) /\ (t.lock[1] >= 2 => f(0, w) = f(h, w))
    /\ (t.lock[1] = 0 => f(0, 0)) /\ (t.lock[1] \in 1..1 /\ ~InputsFinal(t) => (f(h, w) <=> h > t.lock[1]))
    /\ (t.lock[1] >= 2 /\ ~InputsFinal(t) => (f(h, w) <=> w > t.lock[1]))
=============================================================================
