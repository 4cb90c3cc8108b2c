-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Derivation paths.  A path is a sequence of numbers below 2H (BigNats);  *)
(* those from H on are hardened.  Texts are sequences of code points.      *)
(***************************************************************************)
EXTENDS BigNat
CONSTANT H
LOCAL Dig(c) == c >= 48 /\ c <= 57
RECURSIVE Split(_, _, _, _)
Split(t, k, w, acc) == IF k > Len(t) THEN Append(acc, w)
                       ELSE IF t[k] = 47 THEN Split(t, k + 1, <<>>, Append(acc, w)) ELSE Split(t, k + 1, Append(w, t[k]), acc)
RECURSIVE DecValue(_, _)
DecValue(w, n) == IF n = 0 THEN <<>> ELSE BAdd(BMul(DecValue(w, n - 1), <<10>>), BFromInt(w[n] - 48))
PartOf(w) ==
  LET hard == w # <<>> /\ w[Len(w)] = 39
      n == IF hard THEN Len(w) - 1 ELSE Len(w)
  IN IF n = 0 \/ \E k \in 1..n : ~Dig(w[k]) THEN [ok |-> FALSE]
     ELSE LET v == DecValue(w, n) IN IF BLt(v, H) THEN [ok |-> TRUE, v |-> IF hard THEN BAdd(v, H) ELSE v] ELSE [ok |-> FALSE]
ParsePath(t) ==
  LET ws == Split(t, 1, <<>>, <<>>)
      ps == [k \in 1 .. Len(ws) - 1 |-> PartOf(ws[k + 1])]
  IN IF ws[1] # <<109>> \/ \E k \in DOMAIN ps : ~ps[k].ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, v |-> [k \in DOMAIN ps |-> ps[k].v]]

RECURSIVE DecCps(_)
DecCps(v) == LET qr == BDivMod(v, <<10>>) d == <<48 + BToInt(qr[2])>> IN IF qr[1] = <<>> THEN d ELSE DecCps(qr[1]) \o d
RECURSIVE PathText(_)
PathText(p) ==
  IF p = <<>> THEN <<109>>
  ELSE LET n == Len(p) v == p[n]
       IN PathText(SubSeq(p, 1, n - 1)) \o <<47>> \o (IF BLt(v, H) THEN DecCps(v) ELSE DecCps(BSub(v, H)) \o <<39>>)
=============================================================================
