------------------------------- MODULE Readers ------------------------------
(***************************************************************************)
(* Several readers of the operations of one script.  Each was begun on its *)
(* own, is asked for a few operations at a time, may be left where it is,  *)
(* and is not disturbed by the others.  A reader is [at, over]: where it   *)
(* stands, and whether it has already said that nothing is left.           *)
(***************************************************************************)
EXTENDS Script
Begun == [at |-> 1, over |-> FALSE]

(* Asking for k operations of s: what is given, how it ends ("more", "end", "cut"), the reader afterwards *)
RECURSIVE Asked(_, _, _, _)
Asked(s, r, k, acc) ==
  IF k = 0 THEN [ops |-> acc, ends |-> "more", reader |-> r]
  ELSE IF r.over \/ r.at > Len(s) THEN [ops |-> acc, ends |-> "end", reader |-> [r EXCEPT !.over = TRUE]]
  ELSE LET o == OpAt(s, r.at)
       IN IF ~o.ok THEN [ops |-> acc, ends |-> "cut", reader |-> [r EXCEPT !.over = TRUE]]
          ELSE Asked(s, [r EXCEPT !.at = o.next], k - 1, Append(acc, [push |-> o.push, v |-> o.v]))

(* A plan is a sequence of <<reader, k>>; <<0, 0>> asks the script for everything *)
RECURSIVE Said(_, _, _, _)
Said(s, plan, rs, acc) ==
  IF plan = <<>> THEN acc
  ELSE LET p == plan[1]
       IN IF p[1] = 0 THEN LET o == Ops(s) IN Said(s, Tail(plan), rs, Append(acc, [ops |-> o.ops, ends |-> IF o.truncated THEN "cut" ELSE "end"]))
          ELSE LET a == Asked(s, rs[p[1]], p[2], <<>>)
               IN Said(s, Tail(plan), [rs EXCEPT ![p[1]] = a.reader], Append(acc, [ops |-> a.ops, ends |-> a.ends]))
=============================================================================
