----------------------------- MODULE Difficulty -----------------------------
(***************************************************************************)
(* The proof-of-work difficulty rules.  H(h) is the header at height h of  *)
(* the chain considered: [ok |-> FALSE] when it is missing, otherwise      *)
(* [ok |-> TRUE, ts |-> BigNat, bits |-> 4 bytes].  Every rule yields the  *)
(* required bits (4 bytes, most significant first), or Missing when an     *)
(* ancestor it needs is missing.                                           *)
(*                                                                         *)
(* Interval (2016), Spacing (600 s), Window (144) and the heights are      *)
(* parameters, so that the rules can be model checked in the small.        *)
(***************************************************************************)
EXTENDS Work, FiniteSets
CONSTANTS Interval, Spacing, Window

Missing == <<>>
Undefined == <<0>>    \* the rule divides by zero: no outcome is prescribed
LOCAL I(n) == BFromInt(n)
Clamp(x, lo, hi) == BMin(BMax(x, lo), hi)
\* later - earlier, 0 if negative (every use is clamped from below by a positive number)
Elapsed(later, earlier) == IF BLe(earlier, later) THEN BSub(later, earlier) ELSE <<>>
Ease(target, maxTarget) == ToBits(BMin(target, maxTarget))

(* The original rule: every Interval blocks, scale the target by the time the last Interval - 1 gaps took *)
Fortnightly(H(_), height, genesisBits, maxTarget) ==
  IF height = 0 THEN genesisBits
  ELSE IF ~H(height - 1).ok THEN Missing
  ELSE IF height % Interval # 0 THEN H(height - 1).bits
  ELSE IF ~H(height - Interval).ok THEN Missing
  ELSE LET span == I(Interval * Spacing)
           took == Clamp(Elapsed(H(height - 1).ts, H(height - Interval).ts),
                         I((Interval * Spacing) \div 4), I(Interval * Spacing * 4))
       IN Ease(BDiv(BMul(Target(H(height - 1).bits), took), span), maxTarget)

(* Upper median of the (up to) 11 timestamps ending at a height; there are no headers at negative heights *)
MtpFrom(h) == IF h >= 10 THEN h - 10 ELSE IF h < 0 THEN h ELSE 0
MtpOk(H(_), h) == \A x \in MtpFrom(h) .. h : H(x).ok
Mtp(H(_), h) ==
  LET S == MtpFrom(h) .. h
      n == h - MtpFrom(h) + 1
      Rank(x) == Cardinality({y \in S : BLt(H(y).ts, H(x).ts) \/ (H(y).ts = H(x).ts /\ y < x)})
      mid == CHOOSE x \in S : Rank(x) = n \div 2
  IN H(mid).ts

(* The emergency rule: 25% easier when the last 6 blocks took 12 hours by median time past *)
Emergency(H(_), height, genesisBits, maxTarget) ==
  LET base == Fortnightly(H, height, genesisBits, maxTarget)
  IN IF base = Missing \/ height % Interval = 0 THEN base
     ELSE IF ~MtpOk(H, height - 1) \/ ~MtpOk(H, height - 7) THEN Missing
     ELSE IF BLt(Mtp(H, height - 1), BAdd(Mtp(H, height - 7), I(12 * 3600))) THEN base
     ELSE LET t == Target(base) IN Ease(BAdd(t, BDiv(t, I(4))), maxTarget)

(* The Window-block rule: aim at the work rate between two "suitable" blocks.  The suitable block of
   three consecutive ones is picked by three compare-exchanges on strictly greater timestamps. *)
Exchange(H(_), s, m, n) == IF BLt(H(s[n]).ts, H(s[m]).ts) THEN [s EXCEPT ![m] = s[n], ![n] = s[m]] ELSE s
Suitable(H(_), height) ==
  LET s0 == <<height - 3, height - 2, height - 1>>
      s1 == Exchange(H, s0, 1, 3)
      s2 == Exchange(H, s1, 1, 2)
      s3 == Exchange(H, s2, 2, 3)
  IN s3[2]
WindowRule(H(_), height, maxTarget) ==
  IF \E h \in (height - Window - 3 .. height - Window - 1) \cup (height - 3 .. height - 1) : ~H(h).ok THEN Missing
  ELSE LET from == Suitable(H, height - Window)
           to == Suitable(H, height)
       IN IF \E h \in from + 1 .. to : ~H(h).ok THEN Missing
          ELSE LET work == BSum([n \in 1 .. to - from |-> WorkOf(H(from + n).bits)])
                   took == Clamp(Elapsed(H(to).ts, H(from).ts), I((Window * Spacing) \div 2), I(Window * Spacing * 2))
                   rate == BDiv(BMul(work, I(Spacing)), took)
               IN IF rate = <<>> THEN Undefined ELSE Ease(BSub(BDiv(BPow2(256), rate), <<1>>), maxTarget)

Mainnet(H(_), height, genesisBits, maxTarget, edaHeight, lastEda) ==
  IF height < edaHeight THEN Fortnightly(H, height, genesisBits, maxTarget)
  ELSE IF height <= lastEda THEN Emergency(H, height, genesisBits, maxTarget)
  ELSE WindowRule(H, height, maxTarget)

(* Test networks: minimum difficulty after 20 minutes *)
\* the bits of the nearest header at or below h that is the first of its period or not of minimum difficulty
NonSpecial(H(_), h, genesisBits) ==
  LET Stop(x) == x % Interval = 0 \/ (IF H(x).ok THEN H(x).bits # genesisBits ELSE TRUE)
      back == CHOOSE d \in 0 .. h % Interval : Stop(h - d) /\ \A e \in 0 .. d - 1 : ~Stop(h - e)
  IN IF H(h - back).ok THEN H(h - back).bits ELSE Missing
Testnet(H(_), height, ts, genesisBits, maxTarget, lastOld, minDifficultyLater) ==
  IF ~H(height - 1).ok THEN Missing
  ELSE LET slow == BLt(BAdd(H(height - 1).ts, I(2 * Spacing)), ts)
       IN IF height <= lastOld
          THEN IF height % Interval = 0 THEN Fortnightly(H, height, genesisBits, maxTarget)
               ELSE IF slow THEN genesisBits
               ELSE NonSpecial(H, height - 1, genesisBits)
          ELSE IF minDifficultyLater /\ slow THEN genesisBits
               ELSE WindowRule(H, height, maxTarget)
=============================================================================
