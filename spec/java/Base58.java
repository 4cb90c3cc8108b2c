// TLC module override of spec/Base58.tla: Rebase, for bases up to 256.
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

public class Base58 {
  public static Value Rebase(Value s, Value from, Value to) {
    Value[] e = ((TupleValue) s.toTuple()).elems;
    int f = ((IntValue) from).val, t = ((IntValue) to).val, z = 0;
    while (z < e.length && ((IntValue) e[z]).val == 0) z++;
    BigInteger n = BigInteger.ZERO, bf = BigInteger.valueOf(f), bt = BigInteger.valueOf(t);
    for (int i = z; i < e.length; i++) n = n.multiply(bf).add(BigInteger.valueOf(((IntValue) e[i]).val));
    ArrayList<Value> r = new ArrayList<>();
    while (n.signum() > 0) {
      BigInteger[] qr = n.divideAndRemainder(bt);
      r.add(BigNat.BYTE[qr[1].intValue()]);
      n = qr[0];
    }
    for (int i = 0; i < z; i++) r.add(BigNat.BYTE[0]);
    Collections.reverse(r);
    return new TupleValue(r.toArray(new Value[0]));
  }
}
