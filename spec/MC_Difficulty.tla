--------------------------- MODULE MC_Difficulty ----------------------------
(* Chains grown under each difficulty rule with small parameters (Interval   *)
(* 4, Window 4), every sequence of block spacings from Deltas.               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Rule, MaxLen, Deltas, GenesisBits
GB == <<29, 0, 255, 255>>
VARIABLE hs
LOCAL INSTANCE BigNat
D == INSTANCE Difficulty WITH Interval <- 4, Spacing <- 600, Window <- 4
MaxTarget == D!Target(GenesisBits)
H(h) == IF h < 0 \/ h >= Len(hs) THEN [ok |-> FALSE] ELSE hs[h + 1]
Start == 100000000

Required(ts) ==
  LET n == Len(hs) IN
  CASE Rule = "fortnightly" -> D!Fortnightly(H, n, GenesisBits, MaxTarget)
    [] Rule = "emergency" -> IF n < 8 THEN GenesisBits ELSE D!Emergency(H, n, GenesisBits, MaxTarget)
    [] Rule = "window" -> IF n < 8 THEN GenesisBits ELSE D!WindowRule(H, n, MaxTarget)
    [] Rule = "testnet" -> D!Testnet(H, n, ts, GenesisBits, MaxTarget, 5, TRUE)
    [] Rule = "scaling" -> IF n < 8 THEN GenesisBits ELSE D!Testnet(H, n, ts, GenesisBits, MaxTarget, 5, FALSE)
Init == hs = <<[ok |-> TRUE, ts |-> BFromInt(Start), bits |-> GenesisBits]>>
Usable(ts) == Rule # "testnet" \/ Len(hs) < 6 \/ Len(hs) >= 8 \/ BLt(BAdd(H(Len(hs) - 1).ts, BFromInt(1200)), ts)
Next == /\ Len(hs) < MaxLen
        /\ \E d \in Deltas :
             LET last == BToInt(hs[Len(hs)].ts)
                 ts == BFromInt(IF last + d < 1 THEN 1 ELSE last + d)
                 required == Required(ts)
             IN /\ Usable(ts)
                /\ hs' = Append(hs, [ok |-> TRUE, ts |-> ts, bits |-> required])
T(k) == D!Target(hs[k].bits)
N == Len(hs)
Canonical == D!BitsOk(hs[N].bits)
NeverEasierThanMax == BLe(T(N), MaxTarget)
\* one retarget changes the target at most fourfold either way (up to compact rounding)
RetargetBounded ==
  (Rule = "fortnightly" /\ N > 1) =>
    /\ BLe(T(N), BMul(T(N - 1), <<4>>))
    /\ BLe(T(N - 1), BMul(T(N), <<5>>))
    /\ (N - 1) % 4 # 0 => T(N) = T(N - 1)
\* the emergency rule never makes it harder between retargets, and never more than a quarter easier
EmergencyEases ==
  (Rule = "emergency" /\ N > 1 /\ (N - 1) % 4 # 0) =>
    /\ BLe(T(N - 1), T(N)) /\ BLe(BMul(T(N), <<4>>), BMul(T(N - 1), <<5>>))
\* with exact ten-minute spacing the window rule keeps a constant target (up to rounding of work)
Steady ==
  (Rule = "window" /\ N > 8 /\ \A k \in 2 .. N - 1 : hs[k].ts = BAdd(hs[k - 1].ts, BFromInt(600)))
    => BLe(T(N), MaxTarget) /\ BLe(BMul(MaxTarget, <<9>>), BMul(T(N), <<10>>))
MinDifficulty ==
  (Rule = "testnet" /\ N > 1 /\ (N - 1) % 4 # 0 /\ BLt(BAdd(hs[N - 1].ts, BFromInt(1200)), hs[N].ts)) => hs[N].bits = GenesisBits
=============================================================================
