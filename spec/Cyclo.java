// Fast versions of the operators of Cyclo.tla of the same names (TLC picks up
// a class named like a module).  CycloTest.tla checks them against the
// definitions.
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Cyclo {
  private static final ConcurrentHashMap<Integer, long[][]> RED = new ConcurrentHashMap<>();

  private static long[] polyDiv(long[] p, long[] q) {
    long[] r = p.clone();
    int dp = p.length - 1, dq = q.length - 1;
    long[] out = new long[dp - dq + 1];
    for (int at = dp; at >= dq; at--) {
      long c = r[at];
      out[at - dq] = c;
      for (int j = 0; j <= dq; j++) r[at - dq + j] -= c * q[j];
    }
    return out;
  }

  private static long[] cyclo(int n) {
    long[] p = new long[n + 1];
    p[0] = -1;
    p[n] = 1;
    for (int d = 1; d < n; d++) if (n % d == 0) p = polyDiv(p, cyclo(d));
    return p;
  }

  private static long[][] red(int n) {
    return RED.computeIfAbsent(n, k -> {
      long[] poly = cyclo(k);
      int phi = poly.length - 1;
      long[][] t = new long[k][];
      long[] v = new long[phi];
      v[0] = 1;
      for (int i = 0; i < k; i++) {
        t[i] = v;
        long[] w = new long[phi];
        for (int j = 0; j < phi; j++) w[j] = (j == 0 ? 0 : v[j - 1]) - v[phi - 1] * poly[j];
        v = w;
      }
      return t;
    });
  }

  private static long[] get(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long[] a = new long[t.elems.length];
    for (int i = 0; i < a.length; i++) a[i] = ((IntValue) t.elems[i]).val;
    return a;
  }

  private static Value put(long[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) {
      if (a[i] != (int) a[i]) throw new ArithmeticException("Cyclo: 32-bit overflow");
      e[i] = IntValue.gen((int) a[i]);
    }
    return new TupleValue(e);
  }

  private static int num(Value v) { return ((IntValue) v).val; }

  public static Value CInt(Value n, Value k) {
    long[] r = new long[red(num(n))[0].length];
    r[0] = num(k);
    return put(r);
  }

  public static Value CZero(Value n) { return CInt(n, IntValue.gen(0)); }

  public static Value COne(Value n) { return CInt(n, IntValue.gen(1)); }

  public static Value CAdd(Value a, Value b) {
    long[] x = get(a), y = get(b);
    for (int i = 0; i < x.length; i++) x[i] += y[i];
    return put(x);
  }

  public static Value CScale(Value k, Value a) {
    long[] x = get(a);
    for (int i = 0; i < x.length; i++) x[i] *= num(k);
    return put(x);
  }

  private static long[] rot(int n, int e, long[] x) {
    long[][] t = red(n);
    int s = Math.floorMod(e, n);
    long[] r = new long[x.length];
    for (int i = 0; i < x.length; i++) {
      if (x[i] == 0) continue;
      long[] row = t[(i + s) % n];
      for (int j = 0; j < r.length; j++) r[j] += x[i] * row[j];
    }
    return r;
  }

  public static Value CRot(Value n, Value e, Value a) {
    return put(rot(num(n), num(e), get(a)));
  }

  public static Value CMul(Value n, Value a, Value b) {
    long[] x = get(a), y = get(b), r = new long[x.length];
    for (int i = 0; i < y.length; i++) {
      if (y[i] == 0) continue;
      long[] z = rot(num(n), i, x);
      for (int j = 0; j < r.length; j++) r[j] += y[i] * z[j];
    }
    return put(r);
  }

  public static Value CConj(Value n, Value a) {
    long[][] t = red(num(n));
    long[] x = get(a), r = new long[x.length];
    for (int i = 0; i < x.length; i++) {
      long[] row = t[(num(n) - i) % num(n)];
      for (int j = 0; j < r.length; j++) r[j] += x[i] * row[j];
    }
    return put(r);
  }

  public static Value CIsZero(Value a) {
    for (long c : get(a)) if (c != 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
}
