----------------------------- MODULE MC_Chains ------------------------------
(***************************************************************************)
(* Every order in which every tree of up to MaxHeaders headers can be      *)
(* connected, with every assignment of Works to headers.  Each state is    *)
(* checked against all the invariants of Headers; states with MaxHeaders   *)
(* headers are printed as behaviours to replay on the real code when       *)
(* Emit = TRUE.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxHeaders, Works, Height, Prior, Emit
IntAdd(a, b) == a + b
IntSub(a, b) == a - b
IntLess(a, b) == a < b
INSTANCE Headers WITH WAdd <- IntAdd, WSub <- IntSub, WLess <- IntLess, WZero <- 0
VARIABLES st

Init == \E w \in Works : st = Fresh(<<[work |-> w, prevk |-> 0]>>, 1, Height, Prior)
Connect == /\ Len(st.stored) <= MaxHeaders
           /\ \E p \in DOMAIN st.stored, w \in Works :
                st' = Attach([st EXCEPT !.tab = Append(@, [work |-> w, prevk |-> st.stored[p].k])], Len(st.tab) + 1, p)
Restart == st' = Reopen(st)
Next == Connect \/ Restart
Inv_Partition == Partition(st)
Inv_Paths == PathsAreAncestry(st)
Inv_Shape == ChainShape(st)
Inv_Work == WorkIsSum(st)
Inv_Longest == LongestIsHeaviest(st)
Inv_Common == CommonAgrees(st)
Inv_Star == StarIsAttaching(st)
Inv_Reopen == ReopenIsIdentity(st)
\* chains only ever grow: a stored header never moves to another chain, and work never shrinks
Stable == [][/\ \A i \in DOMAIN st.owner : st'.owner[i] = st.owner[i] /\ st'.stored[i] = st.stored[i]
             /\ \A c \in DOMAIN st.chains : /\ st'.chains[c].parent = st.chains[c].parent
                                            /\ st'.chains[c].first = st.chains[c].first
                                            /\ st'.chains[c].work >= st.chains[c].work]_st
Inv_Moved == MovingIsPruning(st)
Emitted == (Emit /\ Len(st.stored) = MaxHeaders + 1) =>
  PrintT("CASE" \o ToJson([parents |-> [i \in 1..MaxHeaders |-> st.stored[i + 1].parent],
                           works |-> [i \in 1..MaxHeaders + 1 |-> st.tab[i].work]]))
=============================================================================
