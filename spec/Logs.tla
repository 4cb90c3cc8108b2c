-------------------------------- MODULE Logs --------------------------------
(***************************************************************************)
(* Numbers with a fractional part, exactly: a double is n / 2^k.           *)
(***************************************************************************)
EXTENDS BigNat
\* floor(2^K log2 w), for w > 0: the fraction's bits by repeated squaring of a P-bit mantissa in [2^(P-1), 2^P)
RECURSIVE LogFrac(_, _, _, _)
LogFrac(m, P, K, acc) ==
  IF K = 0 THEN acc
  ELSE CHOOSE v \in {IF BBitLen(s) > P THEN LogFrac(BDiv(s, <<2>>), P, K - 1, BAdd(BAdd(acc, acc), <<1>>))
                     ELSE LogFrac(s, P, K - 1, BAdd(acc, acc)) : s \in {BDiv(BMul(m, m), BPow2(P - 1))}} : TRUE
Log2(w, P, K) ==
  LET n == BBitLen(w)
      m == IF n <= P THEN BMul(w, BPow2(P - n)) ELSE BDiv(w, BPow2(n - P))
  IN LogFrac(m, P, K, BFromInt(n - 1))
AbsDiff(a, b) == IF BLt(a, b) THEN BSub(b, a) ELSE BSub(a, b)
\* n / 2^k is num / den up to one part in 2^e
Near(n, k, num, den, e) ==
  LET exact == BMul(num, BPow2(k)) IN BLe(BMul(AbsDiff(BMul(n, den), exact), BPow2(e)), exact)
\* n / 2^k is log2 w up to 2^-e
NearLog2(n, k, w, e) ==
  LET l == Log2(w, 200, 60)
  IN BLe(BMul(AbsDiff(BMul(n, BPow2(60)), BMul(l, BPow2(k))), BPow2(e)), BPow2(k + 60))
=============================================================================
