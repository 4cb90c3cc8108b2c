------------------------------ MODULE Electrum ------------------------------
(***************************************************************************)
(* Old Electrum seeds: three words, numbers below EN, for each value below *)
(* EM (BigNats).  EN is 1626 and EM 2^32.                                  *)
(***************************************************************************)
EXTENDS BigNat
CONSTANTS EN, EM
LOCAL ModN(n) == n % EN
BN == BFromInt(EN)
\* <<i1, i2, i3>>: the second and third are differences to the one before
OldWords(v) ==
  LET a == BDivMod(v, BN) b == BDivMod(a[1], BN)
      i1 == BToInt(a[2]) i2 == ModN(i1 + BToInt(b[2])) i3 == ModN(i2 + BToInt(BMod(b[1], BN)))
  IN <<i1, i2, i3>>
OldValue(i1, i2, i3) ==
  LET d2 == BFromInt(ModN(i2 - i1 + EN)) d3 == BFromInt(ModN(i3 - i2 + EN))
  IN BAdd(BFromInt(i1), BMul(BN, BAdd(d2, BMul(BN, d3))))
OldOk(i1, i2, i3) == BLt(OldValue(i1, i2, i3), EM)
=============================================================================
