----------------------------- MODULE MC_Outputs -----------------------------
(* Every sequence of up to MaxPieces script pieces: classification does not  *)
(* change when no-ops and dropped pushes are put anywhere, canonical         *)
(* scripts classify as what they were made for, and nothing has two kinds.   *)
EXTENDS Outputs, Secp, TLC
CONSTANTS MaxPieces, MultiLen
VARIABLE c



H20 == Fill(7, 20)
K1 == Hx("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
K0 == Fill(5, 33)      \* not a key
Pieces == {Push(H20), Push(K1), Push(<<2>>), <<OP_DUP>>, <<OP_HASH160>>, <<OP_EQUAL>>, <<OP_EQUALVERIFY>>, <<OP_CHECKSIG>>,
           <<OP_RETURN>>, <<OP_CHECKMULTISIG>>, <<OP_DROP>>, <<OP_2DROP>>, <<1>>}
Noise == {<<OP_NOP>>, <<1, 9, OP_DROP>>, Push(K1) \o <<0, OP_2DROP>>, <<0, 0, OP_DROP, OP_DROP>>}
MultiPieces == {<<0>>, <<81>>, <<82>>, <<83>>, Push(K1), Push(K0), <<2, 2, 0>>, <<1, 130>>}
Kinds == {[kind |-> "pubkeyhash", hash |-> H20], [kind |-> "scripthash", hash |-> H20], [kind |-> "pubkey", key |-> ParseKey(K1)],
          [kind |-> "op_return"]}
         \cup UNION {{[kind |-> "multisig", threshold |-> m, keys |-> [k \in 1..n |-> ParseKey(K1)]] : m \in 1..n} : n \in {1, 2, 3, 17}}
Init == c \in {<<"s", <<>>, 0>>, <<"m", <<>>, 0>>} \cup {<<"k", k, 0>> : k \in Kinds}
Next == \/ c[1] = "s" /\ c[3] < MaxPieces /\ \E p \in Pieces : c' = <<"s", Append(c[2], p), c[3] + 1>>
        \/ c[1] = "m" /\ c[3] < MultiLen /\ \E p \in MultiPieces : c' = <<"m", Append(c[2], p), c[3] + 1>>
Whole == Concat(c[2]) \o IF c[1] = "m" THEN <<OP_CHECKMULTISIG>> ELSE <<>>
Same_(a, b) == a = b
NoiseFree ==
  c[1] \in {"s", "m"} => LET a == Classify(Whole) IN
    \A k \in 0 .. c[3] : \A x \in Noise :
       \* a truncating piece swallows what follows, so noise goes before it
       (\A j \in 1..k : c[2][j] # <<1>>) => Classify(Concat(SubSeq(c[2], 1, k)) \o x \o Concat(SubSeq(c[2], k + 1, c[3])) \o IF c[1] = "m" THEN <<OP_CHECKMULTISIG>> ELSE <<>>) = a
Canonical == c[1] = "k" => Classify(ScriptOf(c[2])) = c[2]
MultiSense ==
  c[1] = "m" => LET a == Classify(Whole) IN
    a.kind = "multisig" => (Len(a.keys) = c[3] - 2 /\ a.threshold \in 1 .. Len(a.keys))
Unknown ==  \* what is known has the canonical operations
  c[1] \in {"s", "m"} => LET a == Classify(Whole) IN
    a.kind \notin {"unknown", "op_return"} => Len(Ops(ScriptOf(a)).ops) = Len(Required(Whole))
=============================================================================
