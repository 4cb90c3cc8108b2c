------------------------------ MODULE MC_Index ------------------------------
(***************************************************************************)
(* Looking headers up by hash: a bounded cache in front of a search        *)
(* through the concatenated short hashes (prefixes of HashLen-symbol       *)
(* hashes over a two-symbol alphabet), as chain.py does it.  Checked       *)
(* against the abstract answer for every hash, stored or not, in every     *)
(* reachable state, so prefix collisions and matches that straddle two     *)
(* entries all occur.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxHeaders, HashLen, ShortLen, CacheMax, Emit
IntAdd(a, b) == a + b
IntSub(a, b) == a - b
IntLess(a, b) == a < b
INSTANCE Headers WITH WAdd <- IntAdd, WSub <- IntSub, WLess <- IntLess, WZero <- 0
VARIABLES st, short, cache

Hashes == [1..HashLen -> {0, 1}]
Short(h) == SubSeq(h, 1, ShortLen)
HashOf(s, i) == s.tab[s.stored[i].k].hash

\* the cache keeps insertion order; storing an existing key keeps its place
Put(c, h, i, chain) ==
  IF \E x \in DOMAIN c : c[x][1] = h
  THEN [x \in DOMAIN c |-> IF c[x][1] = h THEN <<h, i, chain>> ELSE c[x]]
  ELSE Append(c, <<h, i, chain>>)
RECURSIVE PutTips(_, _, _)
PutTips(c, s, n) == IF n > Len(s.chains) THEN c ELSE PutTips(Put(c, HashOf(s, TipOf(s, n)), TipOf(s, n), n), s, n + 1)
AddTip(c, s) ==
  LET i == Len(s.stored)
      c1 == Put(c, HashOf(s, i), i, s.owner[i])
  IN IF Len(c1) <= CacheMax THEN c1
     ELSE PutTips(SubSeq(c1, Len(c1) \div 2 + 1, Len(c1)), s, 1)

(* the search; offsets count symbols from 0 *)
MatchesAt(s, key, o) == o + ShortLen <= Len(s) /\ SubSeq(s, o + 1, o + ShortLen) = key
Find(s, key, from) ==
  LET hits == {o \in from .. Len(s) : MatchesAt(s, key, o)}
  IN IF hits = {} THEN -1 ELSE CHOOSE o \in hits : \A p \in hits : o <= p
RECURSIVE Search(_, _, _, _)
Search(s, str, h, from) ==
  LET o == Find(str, Short(h), from)
  IN IF o = -1 THEN 0
     ELSE IF o % ShortLen = 0 /\ HashOf(s, o \div ShortLen + 1) = h THEN o \div ShortLen + 1
     ELSE Search(s, str, h, from + 1)

LookupImpl(h) ==
  IF \E x \in DOMAIN cache : cache[x][1] = h
  THEN LET x == CHOOSE x \in DOMAIN cache : cache[x][1] = h IN <<cache[x][2], cache[x][3]>>
  ELSE LET i == Search(st, short, h, 0) IN IF i = 0 THEN <<0, 0>> ELSE <<i, st.owner[i]>>
LookupSpec(h) ==
  LET hits == {i \in DOMAIN st.stored : HashOf(st, i) = h}
  IN IF hits = {} THEN <<0, 0>> ELSE LET i == CHOOSE i \in hits : TRUE IN <<i, st.owner[i]>>

Init == \E h \in Hashes :
          /\ st = Fresh(<<[work |-> 1, hash |-> h]>>, 1, 0, 0)
          /\ short = Short(h)
          /\ cache = AddTip(<<>>, Fresh(<<[work |-> 1, hash |-> h]>>, 1, 0, 0))
Connect ==
  /\ Len(st.stored) <= MaxHeaders
  /\ \E p \in DOMAIN st.stored, h \in Hashes \ {HashOf(st, i) : i \in DOMAIN st.stored} :
       LET s2 == Attach([st EXCEPT !.tab = Append(@, [work |-> 1, hash |-> h])], Len(st.tab) + 1, p)
       IN st' = s2 /\ short' = short \o Short(h) /\ cache' = AddTip(cache, s2)
Next == Connect
LookupsAgree == \A h \in Hashes : LookupImpl(h) = LookupSpec(h)
CacheSound == \A x \in DOMAIN cache : <<cache[x][2], cache[x][3]>> = LookupSpec(cache[x][1])
CacheBounded == Len(cache) <= CacheMax + Len(st.chains)
\* which coincidences the model reaches (vacuity guard; expected to be violated when negated)
Straddles == \E h \in Hashes : LET o == Find(short, Short(h), 0) IN o # -1 /\ o % ShortLen # 0 /\ LookupSpec(h)[1] # 0
=============================================================================
