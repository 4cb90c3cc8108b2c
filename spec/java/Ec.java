// TLC module override of spec/Ec.tla: EcMul only.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Ec {
  static final java.util.concurrent.ConcurrentHashMap<java.util.List<BigInteger>, Value> MEMO = new java.util.concurrent.ConcurrentHashMap<>();
  static BigInteger sq(BigInteger a, BigInteger m) { return a.multiply(a).mod(m); }
  // Jacobian coordinates x / z^2, y / z^3; null is the point at infinity
  static BigInteger[] dbl(BigInteger m, BigInteger[] p) {
    if (p == null || p[1].signum() == 0) return null;
    BigInteger a = sq(p[1], m), s = p[0].multiply(a).shiftLeft(2).mod(m), t = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).mod(m);
    BigInteger x = t.multiply(t).subtract(s.shiftLeft(1)).mod(m);
    return new BigInteger[] { x, t.multiply(s.subtract(x)).subtract(a.multiply(a).shiftLeft(3)).mod(m), p[1].multiply(p[2]).shiftLeft(1).mod(m) };
  }
  static BigInteger[] plus(BigInteger m, BigInteger[] p, BigInteger[] q) {   // q has z = 1
    if (p == null) return new BigInteger[] { q[0], q[1], BigInteger.ONE };
    BigInteger z2 = sq(p[2], m), h = q[0].multiply(z2).subtract(p[0]).mod(m), r = q[1].multiply(z2).mod(m).multiply(p[2]).subtract(p[1]).mod(m);
    if (h.signum() == 0) return r.signum() == 0 ? dbl(m, p) : null;
    BigInteger h2 = sq(h, m), h3 = h2.multiply(h).mod(m), v = p[0].multiply(h2).mod(m);
    BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(m);
    return new BigInteger[] { x, r.multiply(v.subtract(x)).subtract(p[1].multiply(h3)).mod(m), p[2].multiply(h).mod(m) };
  }
  static BigInteger[] mul(BigInteger m, BigInteger n, BigInteger[] p) {
    BigInteger[] r = null;
    for (int i = n.bitLength() - 1; i >= 0; i--) {
      r = dbl(m, r);
      if (n.testBit(i)) r = plus(m, r, p);
    }
    if (r == null) return null;
    BigInteger zi = r[2].modInverse(m), z2 = sq(zi, m);
    return new BigInteger[] { r[0].multiply(z2).mod(m), r[1].multiply(z2).mod(m).multiply(zi).mod(m) };
  }
  public static Value EcMul(Value mod, Value k, Value pt) {
    BigInteger m = BigNat.big(mod), n = BigNat.big(k);
    Value[] e = ((TupleValue) pt.toTuple()).elems;
    BigInteger[] p = e.length == 0 ? null : new BigInteger[] { BigNat.big(e[0]), BigNat.big(e[1]) }, r = null;
    java.util.List<BigInteger> key = p == null ? null : java.util.Arrays.asList(m, n, p[0], p[1]);
    if (p != null) {
      Value known = MEMO.get(key);
      if (known != null) return known;
      r = mul(m, n, p);
    }
    Value v = new TupleValue(r == null ? new Value[0] : new Value[] { BigNat.val(r[0]), BigNat.val(r[1]) });
    if (p != null && MEMO.size() < 200000) MEMO.put(key, v);
    return v;
  }
}
