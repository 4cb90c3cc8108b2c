------------------------------- MODULE Outputs -------------------------------
(***************************************************************************)
(* What an output script requires.  Before looking at its shape, no-ops    *)
(* and pushes that are immediately dropped are removed.                    *)
(***************************************************************************)
EXTENDS Asm, KeyForms

RECURSIVE StripFrom(_, _, _)
StripFrom(ops, k, acc) ==
  IF k > Len(ops) THEN acc
  ELSE LET op == ops[k]
           n == Len(acc)
           is(v) == ~op.push /\ op.v = v
       IN IF is(OP_NOP) THEN StripFrom(ops, k + 1, acc)
          ELSE IF is(OP_DROP) /\ n >= 1 /\ (n >= 1 => acc[n].push) THEN StripFrom(ops, k + 1, SubSeq(acc, 1, n - 1))
          ELSE IF is(OP_2DROP) /\ n >= 2 /\ (n >= 2 => (acc[n].push /\ acc[n - 1].push)) THEN StripFrom(ops, k + 1, SubSeq(acc, 1, n - 2))
          ELSE StripFrom(ops, k + 1, Append(acc, op))
\* the remaining operations; a truncated script ends in an operation that is no push and has number 0
Required(s) ==
  LET r == Ops(s)
      ops == StripFrom(r.ops, 1, <<>>)
  IN IF r.truncated THEN Append(ops, [push |-> FALSE, v |-> 0]) ELSE ops

IsOp(x, n) == ~x.push /\ x.v = n
PushesBefore(ops, k) == \A j \in 1 .. k - 1 : ops[j].push
SmallNum(item) == LET x == ItemNum(item) IN IF x.neg \/ Len(x.mag) > 3 THEN -1 ELSE LEValue(x.mag)

(* [kind, ...] *)
Classify(s) ==
  LET ops == Required(s)
      n == Len(ops)
  IN IF n = 5 /\ IsOp(ops[1], OP_DUP) /\ IsOp(ops[2], OP_HASH160) /\ ops[3].push /\ IsOp(ops[4], OP_EQUALVERIFY) /\ IsOp(ops[5], OP_CHECKSIG)
        /\ (n = 5 => Len(ops[3].v) = 20)
     THEN [kind |-> "pubkeyhash", hash |-> ops[3].v]
     ELSE IF n = 3 /\ IsOp(ops[1], OP_HASH160) /\ ops[2].push /\ IsOp(ops[3], OP_EQUAL) /\ (n = 3 => Len(ops[2].v) = 20)
     THEN [kind |-> "scripthash", hash |-> ops[2].v]
     ELSE IF n = 2 /\ ops[1].push /\ IsOp(ops[2], OP_CHECKSIG) /\ (n = 2 => ParseKey(ops[1].v).ok)
     THEN [kind |-> "pubkey", key |-> ParseKey(ops[1].v)]
     ELSE IF \E k \in 1..n : IsOp(ops[k], OP_RETURN) /\ PushesBefore(ops, k)
     THEN [kind |-> "op_return"]
     ELSE IF n >= 4 /\ IsOp(ops[n], OP_CHECKMULTISIG) /\ PushesBefore(ops, n)
             /\ LET keys == n - 3 IN SmallNum(ops[n - 1].v) = keys /\ SmallNum(ops[1].v) >= 1 /\ SmallNum(ops[1].v) <= keys
             /\ \A k \in 2 .. n - 2 : ParseKey(ops[k].v).ok
     THEN [kind |-> "multisig", threshold |-> SmallNum(ops[1].v), keys |-> [k \in 1 .. n - 3 |-> ParseKey(ops[k + 1].v)]]
     ELSE [kind |-> "unknown"]

(* Canonical scripts *)
Op1(n) == <<n>>
ScriptPkh(h) == Op1(OP_DUP) \o Op1(OP_HASH160) \o Push(h) \o Op1(OP_EQUALVERIFY) \o Op1(OP_CHECKSIG)
ScriptSh(h) == Op1(OP_HASH160) \o Push(h) \o Op1(OP_EQUAL)
ScriptPk(key) == Push(KeyBytes(key.pt, key.compressed)) \o Op1(OP_CHECKSIG)
SmallPush(n) == Push(NumItem(FALSE, Trim(LEDigits(n, 3))))
ScriptMulti(keys, m) == SmallPush(m) \o Concat([k \in DOMAIN keys |-> Push(KeyBytes(keys[k].pt, keys[k].compressed))])
                        \o SmallPush(Len(keys)) \o Op1(OP_CHECKMULTISIG)
ScriptOf(c) == CASE c.kind = "pubkeyhash" -> ScriptPkh(c.hash) [] c.kind = "scripthash" -> ScriptSh(c.hash)
  [] c.kind = "pubkey" -> ScriptPk(c.key) [] c.kind = "multisig" -> ScriptMulti(c.keys, c.threshold)
  [] c.kind = "op_return" -> <<OP_RETURN>> [] OTHER -> <<>>
=============================================================================
