------------------------------ MODULE MC_Script -----------------------------
(* Exhaustive checks of Script in a small base: every string up to MaxLen   *)
(* as an item, a script and a number; every pair of short scripts.          *)
EXTENDS Script, TLC
CONSTANTS MaxLen, PairLen
VARIABLE c

Strings(n) == UNION {[1..k -> 0 .. Base - 1] : k \in 0..n}
Init == \/ \E t \in Strings(MaxLen) : c = <<"s", t, <<>>>>
        \/ \E t \in Strings(PairLen) : \E u \in Strings(PairLen) : c = <<"pair", t, u>>
Next == UNCHANGED c
s == c[2]
Single(v) == [ops |-> <<[push |-> TRUE, v |-> v]>>, truncated |-> FALSE]

PushEvaluates == c[1] = "s" => Ops(Push(s)) = Single(s)
PushShortest ==   \* no other script that pushes just this item is shorter
  c[1] = "s" => LET r == Ops(s) IN
    (~r.truncated /\ Len(r.ops) = 1 /\ r.ops[1].push) => Len(Push(r.ops[1].v)) <= Len(s)
NumberRoundTrip ==
  c[1] = "s" => \A neg \in BOOLEAN :
    LET mag == Trim(s) IN ItemNum(NumItem(neg, mag)) = [neg |-> neg /\ mag # <<>>, mag |-> mag]
NumberMinimal ==  \* no other item for the same number is shorter
  c[1] = "s" => LET x == ItemNum(s) IN /\ Len(NumItem(x.neg, x.mag)) <= Len(s)
                                       /\ (Len(NumItem(x.neg, x.mag)) = Len(s) /\ s # <<>> /\ x.mag # <<>>) => NumItem(x.neg, x.mag) = s
RECURSIVE Spans(_, _)
Spans(t, n) == IF n > Len(t) THEN <<>>
               ELSE LET r == OpAt(t, n) IN IF ~r.ok THEN <<SubSeq(t, n, Len(t))>> ELSE <<SubSeq(t, n, r.next - 1)>> \o Spans(t, r.next)
CoversOnce ==     \* the operations cover every byte once, in order; each span alone is that operation
  c[1] = "s" => LET r == Ops(s) sp == Spans(s, 1) IN
    /\ Concat(sp) = s
    /\ Len(sp) = Len(r.ops) + (IF r.truncated THEN 1 ELSE 0)
    /\ \A k \in DOMAIN r.ops : Ops(sp[k]) = [ops |-> <<r.ops[k]>>, truncated |-> FALSE]
    /\ r.truncated => Ops(sp[Len(sp)]) = [ops |-> <<>>, truncated |-> TRUE]
Append_ ==        \* parsing a concatenation is parsing the parts, when the first is complete
  c[1] = "pair" => LET a == Ops(c[2]) b == Ops(c[3]) IN
    ~a.truncated => Ops(c[2] \o c[3]) = [ops |-> a.ops \o b.ops, truncated |-> b.truncated]
DropsAll ==       \* pushes and drops balance (opcodes Base - 1 and Base - 2 stand for DROP and 2DROP)
  c[1] = "pair" =>
    LET items == [k \in 1 .. Len(c[2]) + Len(c[3]) |-> SubSeq(c[2] \o c[3], 1, IF k - 1 <= Len(c[2] \o c[3]) THEN k - 1 ELSE 0)]
        r == Ops(PushAndDrop(items, Base - 1, Base - 2))
        RECURSIVE Depth(_, _)
        Depth(ops, d) == IF ops = <<>> THEN d
                         ELSE Depth(Tail(ops), IF ops[1].push THEN d + 1 ELSE IF ops[1].v = Base - 1 THEN d - 1 ELSE d - 2)
    IN ~r.truncated /\ Depth(r.ops, 0) = 0 /\ \A k \in DOMAIN items : r.ops[k] = [push |-> TRUE, v |-> items[k]]
=============================================================================
