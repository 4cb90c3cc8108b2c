----------------------------- MODULE MC_Readers -----------------------------
(* All plans of up to MaxSteps steps for two readers, on every script of up  *)
(* to MaxLen symbols: what a reader has given is always the beginning of     *)
(* what the script holds, and all of it once it said so.  Plans are printed. *)
EXTENDS Readers, TLC, Json
CONSTANTS MaxLen, MaxSteps
VARIABLES s, plan, rs, given, ended
vars == <<s, plan, rs, given, ended>>

Scripts == UNION {[1..k -> 0 .. Base - 1] : k \in 0 .. MaxLen}
Init == /\ s \in Scripts /\ plan = <<>> /\ rs = <<Begun, Begun>>
        /\ given = <<<<>>, <<>>>> /\ ended = <<"", "">>
Ask(i, k) == LET a == Asked(s, rs[i], k, <<>>)
             IN /\ plan' = Append(plan, <<i, k>>)
                /\ rs' = [rs EXCEPT ![i] = a.reader]
                /\ given' = [given EXCEPT ![i] = @ \o a.ops]
                /\ ended' = [ended EXCEPT ![i] = IF @ = "" /\ a.ends # "more" THEN a.ends ELSE @]
                /\ UNCHANGED s
All_ == /\ plan' = Append(plan, <<0, 0>>) /\ UNCHANGED <<s, rs, given, ended>>
Next == Len(plan) < MaxSteps /\ (All_ \/ \E i \in 1..2, k \in {1, 2, 9} : Ask(i, k))

Emitted == (s = <<>> /\ plan # <<>>) => PrintT("CASE" \o ToJson([plan |-> plan]))
Beginning == \A i \in 1..2 : LET o == Ops(s) g == given[i] IN
  /\ g = SubSeq(o.ops, 1, Len(g))
  /\ ended[i] # "" => (g = o.ops /\ ended[i] = IF o.truncated THEN "cut" ELSE "end")
Independent ==    \* the same as if each reader had been asked alone
  \A i \in 1..2 : LET alone == SelectSeq(plan, LAMBDA p : p[1] = i)
                      w == Said(s, alone, <<Begun, Begun>>, <<>>)
                      RECURSIVE Sum(_)
                      Sum(k) == IF k = 0 THEN <<>> ELSE Sum(k - 1) \o w[k].ops
                  IN given[i] = Sum(Len(w))
=============================================================================
