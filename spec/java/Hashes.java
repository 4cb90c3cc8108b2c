// TLC module override of spec/Hashes.tla.
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import javax.crypto.Cipher;
import javax.crypto.Mac;
import javax.crypto.spec.IvParameterSpec;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.*;

public class Hashes {
  static byte[] b(Value v) { return BigNat.le(v); }
  static Value v(byte[] x) { return BigNat.tup(x); }
  static String s(Value v) { return ((StringValue) v).getVal().toString(); }
  static final char[] HEX = "0123456789abcdef".toCharArray();

  public static Value Hx(Value t) {
    String h = s(t);
    Value[] e = new Value[h.length() / 2];
    for (int i = 0; i < e.length; i++)
      e[i] = BigNat.BYTE[Character.digit(h.charAt(2 * i), 16) * 16 + Character.digit(h.charAt(2 * i + 1), 16)];
    return new TupleValue(e);
  }
  public static Value Hex(Value t) {
    byte[] x = b(t);
    StringBuilder sb = new StringBuilder(x.length * 2);
    for (byte c : x) { sb.append(HEX[(c >> 4) & 15]); sb.append(HEX[c & 15]); }
    return new StringValue(sb.toString());
  }
  public static Value IsHex(Value t) {
    return s(t).matches("([0-9a-f]{2})*") ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value Utf8(Value t) { return v(s(t).getBytes(StandardCharsets.UTF_8)); }
  public static Value Cps(Value t) {
    int[] c = s(t).codePoints().toArray();
    Value[] e = new Value[c.length];
    for (int i = 0; i < c.length; i++) e[i] = IntValue.gen(c[i]);
    return new TupleValue(e);
  }
  public static Value FromCps(Value t) {
    Value[] e = ((TupleValue) t.toTuple()).elems;
    StringBuilder sb = new StringBuilder();
    for (Value x : e) sb.appendCodePoint(((IntValue) x).val);
    return new StringValue(sb.toString());
  }
  public static Value Nfkd(Value t) {
    return new StringValue(java.text.Normalizer.normalize(s(t), java.text.Normalizer.Form.NFKD));
  }
  public static Value Lower(Value t) { return new StringValue(s(t).toLowerCase(java.util.Locale.ROOT)); }
  // the positions of the texts of the lists asked about lately
  static final java.util.LinkedHashMap<IdKey, java.util.HashMap<String, Integer>> LISTS = new java.util.LinkedHashMap<>();
  static final class IdKey {
    final Object o;
    IdKey(Object o) { this.o = o; }
    public int hashCode() { return System.identityHashCode(o); }
    public boolean equals(Object x) { return x instanceof IdKey && ((IdKey) x).o == o; }
  }
  public static Value IndexIn(Value list, Value t) {
    Value[] e = ((TupleValue) list.toTuple()).elems;
    String w = s(t);
    java.util.HashMap<String, Integer> m;
    synchronized (LISTS) {
      m = LISTS.get(new IdKey(e));
      if (m == null) {
        m = new java.util.HashMap<>();
        for (int i = e.length; i > 0; i--) m.put(s(e[i - 1]), i);
        if (LISTS.size() > 200) LISTS.clear();
        LISTS.put(new IdKey(e), m);   // holds on to e, so that its identity stays its own
      }
    }
    Integer k = m.get(w);
    return IntValue.gen(k == null ? 0 : k);
  }
  public static Value Reverse(Value t) {
    Value[] e = ((TupleValue) t.toTuple()).elems;
    Value[] r = new Value[e.length];
    for (int i = 0; i < r.length; i++) r[i] = e[e.length - 1 - i];
    return new TupleValue(r);
  }
  public static Value Join(Value t, Value sep) {
    StringBuilder sb = new StringBuilder();
    Value[] e = ((TupleValue) t.toTuple()).elems;
    for (int i = 0; i < e.length; i++) { if (i > 0) sb.append(s(sep)); sb.append(s(e[i])); }
    return new StringValue(sb.toString());
  }
  static Value md(String alg, Value x) {
    try { return v(MessageDigest.getInstance(alg).digest(b(x))); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value Sha1(Value x) { return md("SHA-1", x); }
  public static Value Sha256(Value x) { return md("SHA-256", x); }
  public static Value Sha512(Value x) { return md("SHA-512", x); }
  public static Value Sha256d(Value x) {
    try { MessageDigest m = MessageDigest.getInstance("SHA-256"); return v(m.digest(m.digest(b(x)))); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  static byte[] mac(String alg, byte[] k, byte[]... msgs) {
    try {
      Mac m = Mac.getInstance(alg);
      m.init(new SecretKeySpec(k.length == 0 ? new byte[1] : k, alg));  // HMAC zero-pads keys
      for (byte[] x : msgs) m.update(x);
      return m.doFinal();
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value HmacSha256(Value k, Value m) { return v(mac("HmacSHA256", b(k), b(m))); }
  public static Value HmacSha512(Value k, Value m) { return v(mac("HmacSHA512", b(k), b(m))); }
  public static Value Pbkdf2Sha512(Value p, Value salt, Value n) {
    byte[] pw = b(p), u = mac("HmacSHA512", pw, b(salt), new byte[] { 0, 0, 0, 1 }), t = u.clone();
    for (int i = 1; i < ((IntValue) n).val; i++) {
      u = mac("HmacSHA512", pw, u);
      for (int j = 0; j < t.length; j++) t[j] ^= u[j];
    }
    return v(t);
  }
  static Value aes(int mode, Value k, Value iv, Value d) {
    try {
      Cipher c = Cipher.getInstance("AES/CBC/NoPadding");
      c.init(mode, new SecretKeySpec(b(k), "AES"), new IvParameterSpec(b(iv)));
      return v(c.doFinal(b(d)));
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value AesCbcEnc(Value k, Value iv, Value d) { return aes(Cipher.ENCRYPT_MODE, k, iv, d); }
  public static Value AesCbcDec(Value k, Value iv, Value d) { return aes(Cipher.DECRYPT_MODE, k, iv, d); }

  // ---- RIPEMD-160 ----
  static final int[] RL = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
    3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
    15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static final int[] SL = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
    11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static final int[] SR = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
    9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static final int[] KL = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}, KR = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
  static int f(int j, int x, int y, int z) {
    switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z;
      case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
  }
  public static Value Ripemd160(Value in) {
    byte[] m = b(in);
    int n = ((m.length + 8) / 64 + 1) * 64;
    byte[] p = java.util.Arrays.copyOf(m, n);
    p[m.length] = (byte) 0x80;
    long bits = 8L * m.length;
    for (int i = 0; i < 8; i++) p[n - 8 + i] = (byte) (bits >>> (8 * i));
    int[] h = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    for (int o = 0; o < n; o += 64) {
      int[] x = new int[16];
      for (int i = 0; i < 16; i++)
        x[i] = (p[o+4*i] & 255) | (p[o+4*i+1] & 255) << 8 | (p[o+4*i+2] & 255) << 16 | (p[o+4*i+3] & 255) << 24;
      int a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4], A = a, B = bb, C = c, D = d, E = e, t;
      for (int j = 0; j < 80; j++) {
        t = Integer.rotateLeft(a + f(j / 16, bb, c, d) + x[RL[j]] + KL[j / 16], SL[j]) + e;
        a = e; e = d; d = Integer.rotateLeft(c, 10); c = bb; bb = t;
        t = Integer.rotateLeft(A + f(4 - j / 16, B, C, D) + x[RR[j]] + KR[j / 16], SR[j]) + E;
        A = E; E = D; D = Integer.rotateLeft(C, 10); C = B; B = t;
      }
      t = h[1] + c + D; h[1] = h[2] + d + E; h[2] = h[3] + e + A; h[3] = h[4] + a + B; h[4] = h[0] + bb + C; h[0] = t;
    }
    byte[] r = new byte[20];
    for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
    return v(r);
  }
  public static Value Hash160(Value x) { return Ripemd160(Sha256(x)); }
}
