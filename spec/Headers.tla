------------------------------ MODULE Headers ------------------------------
(***************************************************************************)
(* The block header collection of bitcoinX (chain.py): headers from a      *)
(* checkpoint on are stored in arrival order and partitioned into chains   *)
(* that form a tree; headers below the checkpoint may be set at will.      *)
(*                                                                         *)
(* The state is one record, so that the same definitions serve the         *)
(* exhaustive models (MC_Chains, MC_Index, MC_Store) and the validation of *)
(* recorded histories (J_Headers):                                         *)
(*   tab      contents of every header mentioned: [work, ...], by number   *)
(*   stored   in arrival order, the checkpoint first:                      *)
(*            [k: header number, parent: position in stored, height]       *)
(*   owner    for each stored position, the chain it lies on               *)
(*   chains   in creation order: [parent: chain or 0, first: height,       *)
(*            members: stored positions, work: cumulative work of the tip] *)
(*   pre      headers set below the checkpoint: height -> header number    *)
(*   prior    the work before the checkpoint                               *)
(* Work values are abstract (integers in models, BigNat in traces).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS WAdd(_, _), WSub(_, _), WLess(_, _), WZero

NoPre == [h \in {} |-> 0]
MaxH(S) == CHOOSE x \in S : \A y \in S : y <= x

Fresh(tab, k, height, prior) ==
  [tab |-> tab,
   stored |-> <<[k |-> k, parent |-> 0, height |-> height]>>,
   owner |-> <<1>>,
   chains |-> <<[parent |-> 0, first |-> height, members |-> <<1>>, work |-> WAdd(prior, tab[k].work)]>>,
   pre |-> NoPre, prior |-> prior]

Checkpoint(st) == st.stored[1].height
TipOf(st, c) == LET m == st.chains[c].members IN m[Len(m)]
ChainHeight(st, c) == st.chains[c].first + Len(st.chains[c].members) - 1
Count(st) == Checkpoint(st) + Len(st.stored)

(* Ancestry, by the previous-hash links alone *)
RECURSIVE AncestorAt(_, _, _)
AncestorAt(st, i, h) ==
  IF i = 0 \/ st.stored[i].height < h THEN 0
  ELSE IF st.stored[i].height = h THEN i ELSE AncestorAt(st, st.stored[i].parent, h)
RECURSIVE AncestryWork(_, _)
AncestryWork(st, i) == IF i = 0 THEN st.prior
                       ELSE WAdd(AncestryWork(st, st.stored[i].parent), st.tab[st.stored[i].k].work)
RECURSIVE Ancestry(_, _)
Ancestry(st, i) == IF i = 0 THEN {} ELSE {i} \cup Ancestry(st, st.stored[i].parent)
LastCommon(st, i, j) ==
  LET both == Ancestry(st, i) \cap Ancestry(st, j)
  IN CHOOSE x \in both : \A y \in both : st.stored[y].height <= st.stored[x].height

(* The same through the chain bookkeeping: position at height h >= checkpoint on chain c *)
RECURSIVE PositionAt(_, _, _)
PositionAt(st, c, h) ==
  LET ch == st.chains[c]
  IN IF h >= ch.first
     THEN IF h - ch.first + 1 <= Len(ch.members) THEN ch.members[h - ch.first + 1] ELSE 0
     ELSE IF ch.parent # 0 THEN PositionAt(st, ch.parent, h) ELSE 0

\* header number at height h on chain c, 0 when there is none
HeaderAt(st, c, h) ==
  IF h < 0 THEN 0
  ELSE IF h < Checkpoint(st) THEN (IF h \in DOMAIN st.pre THEN st.pre[h] ELSE 0)
  ELSE LET i == PositionAt(st, c, h) IN IF i = 0 THEN 0 ELSE st.stored[i].k

RECURSIVE ParentHeights(_, _, _)
\* <<chain, last height on it>> for chain c and every ancestor chain
ParentHeights(st, c, h) ==
  <<<<c, h>>>> \o (IF st.chains[c].parent = 0 THEN <<>>
                   ELSE ParentHeights(st, st.chains[c].parent, st.chains[c].first - 1))
CommonChainHeight(st, a, b) ==
  LET i == LastCommon(st, TipOf(st, a), TipOf(st, b))
  IN <<st.owner[i], st.stored[i].height>>

HasAll(st, c, lo, hi) == \A h \in lo .. hi : HeaderAt(st, c, h) # 0
RECURSIVE WorkBetween(_, _, _, _)
\* work of the headers at heights lo .. hi - 1
WorkBetween(st, c, lo, hi) ==
  IF lo >= hi THEN WZero
  ELSE WAdd(st.tab[HeaderAt(st, c, lo)].work, WorkBetween(st, c, lo + 1, hi))
WorkTo(st, c, h) == WSub(st.chains[c].work, WorkBetween(st, c, h + 1, ChainHeight(st, c) + 1))

RECURSIVE LongestFrom(_, _, _)
LongestFrom(st, best, c) ==
  IF c > Len(st.chains) THEN best
  ELSE LongestFrom(st, IF WLess(st.chains[best].work, st.chains[c].work) THEN c ELSE best, c + 1)
Longest(st) == LongestFrom(st, 1, 1)

(* Transitions *)
\* store header k whose parent is the stored position p: extend p's chain or fork
Attach(st, k, p) ==
  LET n == Len(st.stored) + 1
      c == st.owner[p]
      height == st.stored[p].height + 1
      st2 == [st EXCEPT !.stored = Append(@, [k |-> k, parent |-> p, height |-> height])]
      w == st.tab[k].work
  IN IF TipOf(st, c) = p
     THEN [st2 EXCEPT !.owner = Append(@, c),
                      !.chains = [@ EXCEPT ![c] = [@ EXCEPT !.members = Append(@, n), !.work = WAdd(@, w)]]]
     ELSE [st2 EXCEPT !.owner = Append(@, Len(st.chains) + 1),
                      !.chains = Append(@, [parent |-> c, first |-> height, members |-> <<n>>,
                                            work |-> WAdd(WorkTo(st, c, height - 1), w)])]
\* store headers ks, all children of the stored position p, one after the other (all at once; see StarIsAttaching)
Star(st, ks, p) ==
  LET n == Len(st.stored)
      c == st.owner[p]
      m == Len(st.chains)
      height == st.stored[p].height + 1
      extends == IF TipOf(st, c) = p THEN 1 ELSE 0      \* the first may extend the parent's chain
      base == WorkTo(st, c, height - 1)
      New(i) == [parent |-> c, first |-> height, members |-> <<n + i>>, work |-> WAdd(base, st.tab[ks[i]].work)]
      grown == IF extends = 0 THEN st.chains
               ELSE [st.chains EXCEPT ![c] = [@ EXCEPT !.members = Append(@, n + 1), !.work = WAdd(@, st.tab[ks[1]].work)]]
  IN IF ks = <<>> THEN st
     ELSE [st EXCEPT !.stored = @ \o [i \in DOMAIN ks |-> [k |-> ks[i], parent |-> p, height |-> height]],
                     !.owner = @ \o [i \in DOMAIN ks |-> IF i <= extends THEN c ELSE m + i - extends],
                     !.chains = grown \o [i \in 1 .. Len(ks) - extends |-> New(i + extends)]]
SetPre(st, h, k) == [st EXCEPT !.pre = (h :> k) @@ @]
SetRun(st, h, ks) == [st EXCEPT !.pre = [x \in h .. h + Len(ks) - 1 |-> ks[x - h + 1]] @@ @]

(* Reopening rebuilds everything from what is stored, in order *)
RECURSIVE RebuildFrom(_, _, _)
RebuildFrom(st, stored, n) ==
  IF n > Len(stored) THEN st ELSE RebuildFrom(Attach(st, stored[n].k, stored[n].parent), stored, n + 1)
Reopen(st) ==
  LET f == Fresh(st.tab, st.stored[1].k, Checkpoint(st), st.prior)
  IN [RebuildFrom(f, st.stored, 2) EXCEPT !.pre = st.pre]

(* The same file opened with another checkpoint: header k at that height, with that work before it.            *)
(* tab[..].prevk is the number of the header one follows (0 or less: none that is known).                      *)
Slot(st, x) ==
  IF x < Checkpoint(st) THEN (IF x \in DOMAIN st.pre THEN st.pre[x] ELSE 0)
  ELSE IF x - Checkpoint(st) + 1 \in DOMAIN st.stored THEN st.stored[x - Checkpoint(st) + 1].k ELSE 0
PosOf(st, k) == LET hits == {i \in DOMAIN st.stored : st.stored[i].k = k} IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE
RECURSIVE Replant(_, _)
Replant(st, ks) ==
  IF ks = <<>> THEN [ok |-> TRUE, st |-> st]
  ELSE LET p == IF Head(ks) = 0 THEN 0 ELSE IF st.tab[Head(ks)].prevk <= 0 THEN 0 ELSE PosOf(st, st.tab[Head(ks)].prevk)
       IN IF p = 0 THEN [ok |-> FALSE, st |-> st] ELSE Replant(Attach(st, Head(ks), p), Tail(ks))
\* refused (and nothing changes) when a stored header does not descend from it; starting over when it is not there
Moved(st, k, height, prior) ==
  LET f == Fresh(st.tab, k, height, prior)
      r == Replant(f, [x \in 1 .. Count(st) - height - 1 |-> Slot(st, height + x)])
  IN IF Slot(st, height) # k THEN [ok |-> TRUE, st |-> f]
     ELSE [ok |-> r.ok, st |-> IF r.ok THEN [r.st EXCEPT !.pre = [x \in {y \in 0 .. height - 1 : Slot(st, y) # 0} |-> Slot(st, x)]] ELSE st]

(* What must hold of every reachable state *)
Partition(st) ==
  /\ Len(st.owner) = Len(st.stored)
  /\ \A i \in DOMAIN st.stored :
        Cardinality({<<c, m>> \in (DOMAIN st.chains) \X (DOMAIN st.stored) :
                       m \in DOMAIN st.chains[c].members /\ st.chains[c].members[m] = i}) = 1
  /\ \A c \in DOMAIN st.chains : \A m \in DOMAIN st.chains[c].members : st.owner[st.chains[c].members[m]] = c
PathsAreAncestry(st) ==
  \A c \in DOMAIN st.chains : \A h \in Checkpoint(st) .. ChainHeight(st, c) + 1 :
     PositionAt(st, c, h) = AncestorAt(st, TipOf(st, c), h)
ChainShape(st) ==
  \A c \in DOMAIN st.chains :
     LET ch == st.chains[c] IN
       /\ st.stored[TipOf(st, c)].height = ChainHeight(st, c)
       /\ st.stored[ch.members[1]].height = ch.first
       /\ (ch.parent = 0) <=> c = 1
       /\ ch.parent < c
       /\ c > 1 => LET p == st.stored[ch.members[1]].parent
                   IN st.owner[p] = ch.parent /\ p # TipOf(st, ch.parent)
       /\ \A m \in 2 .. Len(ch.members) : st.stored[ch.members[m]].parent = ch.members[m - 1]
WorkIsSum(st) == \A c \in DOMAIN st.chains :
  /\ st.chains[c].work = AncestryWork(st, TipOf(st, c))
  /\ \A h \in Checkpoint(st) .. ChainHeight(st, c) :
        WorkTo(st, c, h) = AncestryWork(st, AncestorAt(st, TipOf(st, c), h))
LongestIsHeaviest(st) ==
  LET b == Longest(st) IN
    \A c \in DOMAIN st.chains : /\ ~WLess(st.chains[b].work, st.chains[c].work)
                                /\ c < b => WLess(st.chains[c].work, st.chains[b].work)
\* the implementation's way of finding the common chain and height, from the chain records only
CommonByChains(st, a, b) ==
  LET A == ParentHeights(st, a, ChainHeight(st, a))
      B == ParentHeights(st, b, ChainHeight(st, b))
      ok == {<<A[x][1], IF A[x][2] < B[y][2] THEN A[x][2] ELSE B[y][2]>> :
                <<x, y>> \in {<<x, y>> \in (DOMAIN A) \X (DOMAIN B) : A[x][1] = B[y][1]}}
  IN CHOOSE p \in ok : \A q \in ok : q[2] <= p[2]
CommonAgrees(st) == \A a, b \in DOMAIN st.chains : CommonChainHeight(st, a, b) = CommonByChains(st, a, b)
RECURSIVE AttachAll(_, _, _)
AttachAll(st, ks, p) == IF ks = <<>> THEN st ELSE AttachAll(Attach(st, ks[1], p), Tail(ks), p)
StarIsAttaching(st) ==
  \A p \in DOMAIN st.stored, n \in 0 .. 3 :
     LET ks == [i \in 1..n |-> ((i - 1) % Len(st.tab)) + 1] IN Star(st, ks, p) = AttachAll(st, ks, p)
ReopenIsIdentity(st) == Reopen(st) = st
\* every other checkpoint the file holds: what it shows is the part of the tree from there on, and going back undoes it
MovingIsPruning(st) ==
  \A x \in DOMAIN st.stored :
     LET k == st.stored[x].k
         height == Checkpoint(st) + x - 1
         m == Moved(st, k, height, AncestryWork(st, st.stored[x].parent))
         first == st.stored[1].k
     IN st.stored[x].height = height =>
        /\ m.ok <=> \A y \in x + 1 .. Len(st.stored) : x \in Ancestry(st, y)
        /\ m.ok => /\ Partition(m.st) /\ PathsAreAncestry(m.st) /\ ChainShape(m.st) /\ WorkIsSum(m.st) /\ LongestIsHeaviest(m.st) /\ CommonAgrees(m.st)
                   /\ \A y \in x .. Len(st.stored) : /\ m.st.stored[y - x + 1].k = st.stored[y].k
                                                      /\ m.st.stored[y - x + 1].height = st.stored[y].height
                                                      /\ AncestryWork(m.st, y - x + 1) = AncestryWork(st, y)
                   /\ m.st.stored[TipOf(m.st, Longest(m.st))].k = st.stored[TipOf(st, Longest(st))].k
                   /\ Slot(m.st, height) = k /\ \A y \in 0 .. Count(st) : Slot(m.st, y) = Slot(st, y)
                   /\ Moved(m.st, first, Checkpoint(st), st.prior) = [ok |-> TRUE, st |-> st]
        /\ (x > 1 => Moved(st, first, height, st.prior) = [ok |-> TRUE, st |-> Fresh(st.tab, first, height, st.prior)])
=============================================================================
