------------------------------ MODULE J_Headers -----------------------------
(***************************************************************************)
(* Validates recorded histories of the real Headers class against the      *)
(* specification (Headers, Difficulty, Work).  One trace line is one       *)
(* history: configuration, the raw headers it mentions, and its events in  *)
(* order, each <<operation, arguments..., observed outcome>>.  Each event  *)
(* is one transition of the specification; the outcome the specification   *)
(* allows must be the one observed.  A mismatch is reported and ends that  *)
(* history only.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, Hashes, Work
HS == INSTANCE Headers WITH WAdd <- BAdd, WSub <- BSub, WLess <- BLt, WZero <- <<>>
DF == INSTANCE Difficulty WITH Interval <- 2016, Spacing <- 600, Window <- 144
VARIABLES h, l, st, at

Histories == ndJsonDeserialize(IOEnv.VF_TRACE)
Cfg == Histories[h].cfg
Ev == Histories[h].ev
N2S(n) == ToString(n)

(* header contents from the raw 80 bytes *)
Parse(entry, fieldHash) ==
  LET raw == Hx(entry[1])
      bits == <<raw[76], raw[75], raw[74], raw[73]>>
      hash == IF fieldHash THEN SubSeq(raw, 37, 68) ELSE Sha256d(raw)
  IN [raw |-> entry[1], prevk |-> entry[2],
      hash |-> hash, prev |-> SubSeq(raw, 5, 36),
      ts |-> BFromLE(SubSeq(raw, 69, 72)), bits |-> bits,
      work |-> IF BitsOk(bits) THEN WorkOf(bits) ELSE <<>>,
      value |-> BFromLE(hash)]

(* texts of observations *)
Hdr(k, height) == N2S(k) \o "@" \o N2S(height)
ChainsText(s) ==
  Join([c \in DOMAIN s.chains |->
          "[" \o N2S(s.chains[c].parent) \o "," \o N2S(s.chains[c].first) \o "," \o N2S(HS!ChainHeight(s, c)) \o ","
              \o N2S(s.stored[HS!TipOf(s, c)].k) \o "]"], "")
WorkText(s) == Join([c \in DOMAIN s.chains |-> BDec(s.chains[c].work)], ",") \o ";" \o N2S(HS!Longest(s))
FileText(s) ==
  Join([x \in 1 .. HS!Checkpoint(s) |-> IF x - 1 \in DOMAIN s.pre THEN N2S(s.pre[x - 1]) ELSE "0"]
       \o [i \in DOMAIN s.stored |-> N2S(s.stored[i].k)], ",")
StoredText(s) == Join([i \in DOMAIN s.stored |-> N2S(s.stored[i].k)], ",")
CountText(s) == N2S(HS!Count(s))
FullText(s) == CountText(s) \o ";" \o ChainsText(s) \o ";" \o WorkText(s) \o ";" \o StoredText(s)

(* difficulty rules by name, on chain c *)
GBits == Hx(Cfg.gbits)
MaxTarget == Target(GBits)
RuleBits(s, c, height, ts) ==
  LET H(x) == LET k == HS!HeaderAt(s, c, x)
              IN IF k = 0 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, ts |-> s.tab[k].ts, bits |-> s.tab[k].bits]
      Pick(n) == Hx(Cfg.table[BToInt(BMod(n, BFromInt(Len(Cfg.table)))) + 1])
  IN CASE Cfg.rule = "table" -> Pick(ts)
       [] Cfg.rule = "ancestor" ->   \* depends on the timestamp two headers back on this very chain
            IF ~H(height - 2).ok THEN DF!Missing ELSE Pick(BAdd(ts, BMul(H(height - 2).ts, <<3>>)))
       [] Cfg.rule = "mainnet" -> DF!Mainnet(H, height, GBits, MaxTarget, 478558, 504031)
       [] Cfg.rule = "testnet" -> DF!Testnet(H, height, ts, GBits, MaxTarget, 1188697, TRUE)
       [] Cfg.rule = "scaling" -> DF!Testnet(H, height, ts, GBits, MaxTarget, 2200, FALSE)
BitsText(b) == IF b = DF!Missing THEN "!MissingHeader" ELSE BDec(BFromBE(b))

(* One step: the expected outcome, the next state, the next position table *)
R(text, s, a) == [text |-> text, st |-> s, at |-> a]
Same_(text) == R(text, st, at)
ParentPos(k) == LET p == st.tab[k].prevk IN IF p <= 0 THEN 0 ELSE at[p]
Found(i, s) == Hdr(s.stored[i].k, s.stored[i].height) \o ":" \o N2S(s.owner[i])
DoConnect(k) ==
  LET p == ParentPos(k)
      n == Len(st.stored) + 1
  IN IF p = 0 THEN Same_("!MissingHeader")
     ELSE IF at[k] # 0 THEN Same_("ok " \o Found(at[k], st))
     ELSE LET height == st.stored[p].height + 1
              need == RuleBits(st, st.owner[p], height, st.tab[k].ts)
          IN IF need = DF!Missing THEN Same_("!MissingHeader")
             ELSE IF st.tab[k].bits # need THEN Same_("!IncorrectBits " \o BitsText(need))
             ELSE IF BLt(Target(need), st.tab[k].value) THEN Same_("!InsufficientPoW")
             ELSE LET s2 == HS!Attach(st, k, p)
                  IN R("ok " \o Found(n, s2), s2, [at EXCEPT ![k] = n])
AllThere(c, lo, hi) == \A x \in lo .. hi : HS!HeaderAt(st, c, x) # 0
FindHash(hash) ==
  LET hits == {i \in DOMAIN st.stored : st.tab[st.stored[i].k].hash = hash}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE
\* what opening a crashed file may show, and what retrying the operation then leaves
CrashOk(seen, before, after) ==
  \A x \in DOMAIN seen : seen[x] \in {<<before, after>>, <<after, after>>}

Do(e) ==
  CASE e[1] = "c" -> DoConnect(e[2])
    [] e[1] = "len" -> Same_(CountText(st))
    [] e[1] = "p" -> Same_(CountText(st) \o ";" \o ChainsText(st))
    [] e[1] = "w" -> Same_(WorkText(st))
    [] e[1] = "full" -> Same_(FullText(st))
    [] e[1] = "lk" -> Same_(IF at[e[2]] = 0 THEN "!MissingHeader" ELSE Found(at[e[2]], st))
    [] e[1] = "lx" -> Same_(LET i == FindHash(Hx(e[2])) IN IF i = 0 THEN "!MissingHeader" ELSE Found(i, st))
    [] e[1] = "at" -> Same_(LET k == HS!HeaderAt(st, e[2], e[3]) IN IF k = 0 THEN "!MissingHeader" ELSE Hdr(k, e[3]))
    [] e[1] = "cm" -> Same_(LET r == HS!CommonChainHeight(st, e[2], e[3]) IN N2S(r[1]) \o "@" \o N2S(r[2]))
    [] e[1] = "ph" -> Same_(LET r == HS!ParentHeights(st, e[2], HS!ChainHeight(st, e[2]))
                            IN Join([x \in DOMAIN r |-> N2S(r[x][1]) \o "@" \o N2S(r[x][2])], ","))
    [] e[1] = "wr" -> Same_(IF ~AllThere(e[2], e[3], e[4] - 1) THEN "!MissingHeader"
                            ELSE BDec(HS!WorkBetween(st, e[2], e[3], e[4])))
    [] e[1] = "wt" -> Same_(IF ~AllThere(e[2], e[3] + 1, HS!ChainHeight(st, e[2])) THEN "!MissingHeader"
                            ELSE BDec(HS!WorkTo(st, e[2], e[3])))
    [] e[1] = "mtp" ->
         LET H(x) == LET k == HS!HeaderAt(st, e[2], x)
                     IN IF k = 0 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, ts |-> st.tab[k].ts, bits |-> st.tab[k].bits]
         IN Same_(IF ~DF!MtpOk(H, e[3]) THEN "!MissingHeader" ELSE BDec(DF!Mtp(H, e[3])))
    [] e[1] = "rb" -> LET b == RuleBits(st, e[2], e[3], BFromBE(Hx(e[4])))
                      IN Same_(IF b = DF!Undefined THEN e[5] ELSE BitsText(b))
    [] e[1] = "set" ->    \* height, header
         IF e[2] < 0 \/ e[2] > HS!Checkpoint(st) THEN Same_("!ValueError")
         ELSE IF e[2] = HS!Checkpoint(st) THEN Same_("ok")   \* only ever set to the checkpoint itself
         ELSE R("ok", HS!SetPre(st, e[2], e[3]), at)
    [] e[1] = "setrun" -> R("ok", HS!SetRun(st, e[2], e[3]), at)
    [] e[1] = "setbad" -> Same_(IF e[2] < 0 \/ e[2] > HS!Checkpoint(st) THEN "!ValueError" ELSE "!TypeError")
    [] e[1] = "file" -> Same_(e[2] \o ",0," \o CountText(st) \o ";" \o FileText(st))
    [] e[1] = "star" ->    \* many children of one header: first header, count
         LET ks == [i \in 1 .. e[3] |-> e[2] + i - 1]
             n == Len(st.stored)
             p == ParentPos(e[2])
             s2 == HS!Star(st, ks, p)
         IN R(CountText(s2) \o "," \o N2S(Len(s2.chains)), s2,
              [k \in DOMAIN at |-> IF k >= e[2] /\ k < e[2] + e[3] THEN n + k - e[2] + 1 ELSE at[k]])
    [] e[1] = "re" -> R("ok", st, at)           \* opened again, by another session: Reopen(st) = st (MC_Chains)
    [] e[1] = "fresh" ->                                    \* the file was not usable: starts over
         R("ok", HS!Fresh(st.tab, Cfg.cp, Cfg.cph, BFromBE(Hx(Cfg.prior))),
           [k \in DOMAIN st.tab |-> IF k = Cfg.cp THEN 1 ELSE 0])
    [] e[1] = "moved" ->     \* opened with another checkpoint: header, height, work before it
         LET m == HS!Moved(st, e[2], e[3], BFromBE(Hx(e[4])))
         IN R(IF m.ok THEN "ok" ELSE "!MissingHeader", m.st, [k \in DOMAIN at |-> HS!PosOf(m.st, k)])
    [] e[1] = "restored" ->                                 \* the file as it was when it held the first n headers
         LET f == HS!Fresh(st.tab, Cfg.cp, Cfg.cph, BFromBE(Hx(Cfg.prior)))
         IN R("ok", [HS!RebuildFrom(f, SubSeq(st.stored, 1, e[2]), 2) EXCEPT !.pre = st.pre],
              [k \in DOMAIN st.tab |-> IF at[k] <= e[2] THEN at[k] ELSE 0])
    \* the system refuses to open, grow or map the file meanwhile: connecting happens as ever, or not at all
    [] e[1] = "cf" -> LET r == DoConnect(e[2])
                      IN IF e[3] = "!OSError" /\ Len(r.st.stored) > Len(st.stored) THEN Same_("!OSError") ELSE r
    [] e[1] = "of" -> Same_(IF e[2] \in {"ok same", "!OSError same"} THEN e[2] ELSE "the file as it was")
    [] e[1] = "nf" -> Same_(IF e[2] \in {"ok", "!OSError"} THEN e[2] ELSE "created or not")     \* creation
    [] e[1] = "crashc" -> \* header, observations at every point of connecting it
         LET r == DoConnect(e[2])
         IN R(IF CrashOk(e[3], FullText(st), FullText(r.st)) THEN e[4] ELSE "before or after only", r.st, r.at)
    [] e[1] = "crashs" -> \* height, header
         LET s2 == HS!SetPre(st, e[2], e[3])
         IN R(IF CrashOk(e[4], FullText(st) \o ";" \o FileText(st), FullText(s2) \o ";" \o FileText(s2))
              THEN e[5] ELSE "before or after only", s2, at)
    [] e[1] = "crashn" -> \* creation
         Same_(IF CrashOk(e[2], FullText(st), FullText(st)) THEN e[3] ELSE "just the checkpoint")
    \* the process died in the middle of an operation and the file was opened again
    [] e[1] = "diec" -> LET r == DoConnect(e[2])
                            after == FullText(r.st)
                        IN IF e[3] = after THEN R(after, r.st, r.at) ELSE Same_(FullText(st))
    [] e[1] = "dies" -> LET s2 == HS!SetPre(st, e[2], e[3])
                            after == FullText(s2) \o ";" \o FileText(s2)
                        IN IF e[4] = after THEN R(after, s2, at) ELSE Same_(FullText(st) \o ";" \o FileText(st))
    [] e[1] = "dien" -> Same_(FullText(st))
    [] OTHER -> Same_("unknown operation")

Init == h \in 1 .. Len(Histories) /\ l = 0 /\ st = <<>> /\ at = <<>>
Load ==
  /\ l = 0
  /\ \E hs \in {Histories[h].hdrs} : \E tab \in {[k \in DOMAIN hs |-> Parse(hs[k], Cfg.fieldhash)]} :
        /\ \E hashes \in {[k \in DOMAIN tab |-> tab[k].hash]} :
             \A k \in DOMAIN tab :
               Assert(IF tab[k].prevk = -1 THEN TRUE ELSE IF tab[k].prevk # 0 THEN hashes[tab[k].prevk] = tab[k].prev
                      ELSE \A j \in DOMAIN tab : hashes[j] # tab[k].prev, <<"bad parent hint", h, k>>)
        /\ st' = HS!Fresh(tab, Cfg.cp, Cfg.cph, BFromBE(Hx(Cfg.prior)))
        /\ at' = [k \in DOMAIN tab |-> IF k = Cfg.cp THEN 1 ELSE 0]
  /\ l' = 1 /\ h' = h
Event ==
  /\ l >= 1 /\ l <= Len(Ev)
  /\ \E e \in {Ev[l]} : \E r \in {Do(e)} :    \* (TLC evaluates each once)
        IF r.text = e[Len(e)]
        THEN /\ st' = r.st /\ at' = r.at /\ l' = l + 1
             /\ (l = Len(Ev) => PrintT(<<"HDONE", h>>))
        ELSE /\ PrintT("VFAIL" \o ToJson([n |-> h, what |-> "event " \o N2S(l) \o " " \o e[1] \o ": the specification says " \o r.text]))
             /\ l' = Len(Ev) + 2 /\ UNCHANGED <<st, at>>
  /\ h' = h
Next == Load \/ Event
View == <<h, l>>
=============================================================================
