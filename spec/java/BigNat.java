// TLC module override of spec/BigNat.tla: same operators, evaluated with BigInteger.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigNat {
  static byte[] le(Value v) {
    if (v instanceof StringValue) throw new RuntimeException("BigNat expected, got string");
    Value[] e = ((TupleValue) v.toTuple()).elems;
    byte[] r = new byte[e.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) e[i]).val;
    return r;
  }
  static byte[] rev(byte[] b) {
    byte[] r = new byte[b.length];
    for (int i = 0; i < r.length; i++) r[i] = b[b.length - 1 - i];
    return r;
  }
  static final Value[] BYTE = new Value[256];
  static { for (int i = 0; i < 256; i++) BYTE[i] = IntValue.gen(i); }
  static Value tup(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < e.length; i++) e[i] = BYTE[b[i] & 255];
    return new TupleValue(e);
  }
  public static BigInteger big(Value v) { return new BigInteger(1, rev(le(v))); }
  public static Value val(BigInteger n) {
    if (n.signum() < 0) throw new RuntimeException("negative BigNat");
    if (n.signum() == 0) return new TupleValue(new Value[0]);
    byte[] be = n.toByteArray();
    int off = be[0] == 0 ? 1 : 0;
    Value[] e = new Value[be.length - off];
    for (int i = 0; i < e.length; i++) e[i] = BYTE[be[be.length - 1 - i] & 255];
    return new TupleValue(e);
  }
  static int i(Value v) { return ((IntValue) v).val; }

  public static Value BNorm(Value a) { return val(big(a)); }
  public static Value BFromInt(Value n) { return val(BigInteger.valueOf(i(n))); }
  public static Value BToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
  public static Value BFromLE(Value a) { return val(big(a)); }
  public static Value BFromBE(Value a) { return val(new BigInteger(1, le(a))); }
  static byte[] fixed(Value a, Value n) {
    byte[] r = new byte[i(n)], s = le(a);
    System.arraycopy(s, 0, r, 0, s.length);
    return r;
  }
  public static Value BToLE(Value a, Value n) { return tup(fixed(a, n)); }
  public static Value BToBE(Value a, Value n) { return tup(rev(fixed(a, n))); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  public static Value BLt(Value a, Value b) { return big(a).compareTo(big(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BLe(Value a, Value b) { return big(a).compareTo(big(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BAdd(Value a, Value b) { return val(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return val(big(a).subtract(big(b))); }
  public static Value BMul(Value a, Value b) { return val(big(a).multiply(big(b))); }
  public static Value BDiv(Value a, Value b) { return val(big(a).divide(big(b))); }
  public static Value BMod(Value a, Value b) { return val(big(a).mod(big(b))); }
  public static Value BDivMod(Value a, Value b) {
    BigInteger[] qr = big(a).divideAndRemainder(big(b));
    return new TupleValue(new Value[] { val(qr[0]), val(qr[1]) });
  }
  public static Value BPow2(Value n) { return val(BigInteger.ONE.shiftLeft(i(n))); }
  public static Value BPowMod(Value a, Value e, Value m) { return val(big(a).modPow(big(e), big(m))); }
  public static Value BInvMod(Value a, Value p) { return val(big(a).modInverse(big(p))); }
  public static Value BBitLen(Value a) { return IntValue.gen(big(a).bitLength()); }
  public static Value BDec(Value a) { return new StringValue(big(a).toString()); }
}
