--------------------------------- MODULE Ec ---------------------------------
(***************************************************************************)
(* The curve y^2 = x^3 + b over the integers modulo m (a prime, 3 mod 4):  *)
(* a point is <<x, y>>, or <<>> for the point at infinity.  spec/java/Ec   *)
(* evaluates EcMul faster; MC_Self and MC_Curve compare the two.           *)
(***************************************************************************)
EXTENDS BigNat
M_(m, a) == BMod(a, m)
Sub_(m, a, b) == BMod(BSub(BAdd(a, m), b), m)
Mul_(m, a, b) == BMod(BMul(a, b), m)
EcRhs(m, b, x) == M_(m, BAdd(Mul_(m, x, Mul_(m, x, x)), b))
EcOn(m, b, x, y) == BLt(x, m) /\ BLt(y, m) /\ Mul_(m, y, y) = EcRhs(m, b, x)
EcNeg(m, p) == IF p = <<>> \/ p[2] = <<>> THEN p ELSE <<p[1], BSub(m, p[2])>>
\* a square root of a, when there is one
EcRoot(m, a) ==
  LET r == BPowMod(a, BDiv(BAdd(m, <<1>>), <<4>>), m)
  IN IF Mul_(m, r, r) = a THEN [ok |-> TRUE, v |-> r] ELSE [ok |-> FALSE]
LOCAL Chord(m, p, q, l) ==
  LET x == Sub_(m, Sub_(m, Mul_(m, l, l), p[1]), q[1])
  IN <<x, Sub_(m, Mul_(m, l, Sub_(m, p[1], x)), p[2])>>
EcAdd(m, p, q) ==
  IF p = <<>> THEN q
  ELSE IF q = <<>> THEN p
  ELSE IF p[1] # q[1]
       THEN Chord(m, p, q, Mul_(m, Sub_(m, q[2], p[2]), BInvMod(Sub_(m, q[1], p[1]), m)))
  ELSE IF p[2] # q[2] \/ p[2] = <<>> THEN <<>>
  ELSE Chord(m, p, q, Mul_(m, Mul_(m, <<3>>, Mul_(m, p[1], p[1])), BInvMod(Mul_(m, <<2>>, p[2]), m)))
\* k times p
RECURSIVE EcMulDef(_, _, _)
EcMulDef(m, k, p) ==
  IF k = <<>> THEN <<>>
  ELSE LET qr == BDivMod(k, <<2>>)
           h == EcMulDef(m, qr[1], EcAdd(m, p, p))
       IN IF qr[2] = <<>> THEN h ELSE EcAdd(m, p, h)
EcMul(m, k, p) == EcMulDef(m, k, p)
=============================================================================
