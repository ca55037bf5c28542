// TLC overrides for Arith.tla: the same operators on java.math.BigInteger.
// ArithSelfTest.tla compares them with the TLA+ definitions.
import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

public class Arith {
  private static final BigInteger TWO32 = BigInteger.ONE.shiftLeft(32);
  private static final BigInteger TWO31 = BigInteger.ONE.shiftLeft(31);

  private static BigInteger z(Value v) {
    if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    throw new RuntimeException("Arith: not a numeral: " + v);
  }
  private static Value s(BigInteger b) { return new StringValue(b.toString()); }
  private static int i(Value v) { return ((IntValue) v).val; }
  private static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Arith: not a sequence: " + v);
    return t.elems;
  }
  private static BigInteger floorDiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    return (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }

  public static Value ZAdd(Value a, Value b) { return s(z(a).add(z(b))); }
  public static Value ZSub(Value a, Value b) { return s(z(a).subtract(z(b))); }
  public static Value ZMul(Value a, Value b) { return s(z(a).multiply(z(b))); }
  public static Value ZDiv(Value a, Value b) { return s(floorDiv(z(a), z(b))); }
  public static Value ZMod(Value a, Value b) { return s(z(a).mod(z(b))); }
  public static Value ZCmp(Value a, Value b) { return IntValue.gen(z(a).compareTo(z(b))); }
  public static Value ZPow2(Value k) { return s(BigInteger.ONE.shiftLeft(i(k))); }
  public static Value ZPowMod(Value b, Value e, Value m) { return s(z(b).modPow(z(e), z(m))); }
  public static Value ZInvMod(Value a, Value m) {
    BigInteger A = z(a), M = z(m);
    if (M.equals(BigInteger.ONE)) return s(BigInteger.ZERO);
    if (!A.gcd(M).equals(BigInteger.ONE)) return s(BigInteger.ZERO);
    return s(A.modInverse(M));
  }
  public static Value ZOf(Value n) { return s(BigInteger.valueOf(i(n))); }
  public static Value ZInt(Value v) { return IntValue.gen(z(v).intValueExact()); }
  public static Value ZBit(Value a, Value k) {
    return IntValue.gen(floorDiv(z(a), BigInteger.ONE.shiftLeft(i(k))).testBit(0) ? 1 : 0);
  }
  public static Value ZDigit(Value a, Value lo, Value w) {
    return IntValue.gen(floorDiv(z(a), BigInteger.ONE.shiftLeft(i(lo)))
        .mod(BigInteger.ONE.shiftLeft(i(w))).intValueExact());
  }
  public static Value ZSumSeq(Value v) {
    BigInteger t = BigInteger.ZERO;
    for (Value x : seq(v)) t = t.add(z(x));
    return s(t);
  }
  public static Value ZProdSeq(Value v) {
    BigInteger t = BigInteger.ONE;
    for (Value x : seq(v)) t = t.multiply(z(x));
    return s(t);
  }

  public static Value AddMod(Value a, Value b, Value q) {
    return IntValue.gen((int) Math.floorMod((long) i(a) + i(b), (long) i(q)));
  }
  public static Value SubMod(Value a, Value b, Value q) {
    return IntValue.gen((int) Math.floorMod((long) i(a) - i(b), (long) i(q)));
  }
  public static Value MulMod(Value a, Value b, Value q) {
    return IntValue.gen((int) Math.floorMod((long) i(a) * i(b), (long) i(q)));
  }
  public static Value PowMod(Value b, Value e, Value q) {
    return IntValue.gen(z(b).modPow(z(e), z(q)).intValueExact());
  }

  private static BigInteger wrap(BigInteger a) { return a.add(TWO31).mod(TWO32).subtract(TWO31); }
  public static Value ZWrap(Value a) { return s(wrap(z(a))); }
  public static Value WAdd(Value a, Value b) { return IntValue.gen(i(a) + i(b)); }
  public static Value WSub(Value a, Value b) { return IntValue.gen(i(a) - i(b)); }
  public static Value WMul(Value a, Value b) { return IntValue.gen(i(a) * i(b)); }
  public static Value WUns(Value a) { return s(BigInteger.valueOf(Integer.toUnsignedLong(i(a)))); }

  private static Value tup(Value[] e) { return new TupleValue(e); }
  public static Value NegMulMod(Value a, Value b, Value q) {
    Value[] x = seq(a), y = seq(b);
    int n = x.length; long m = i(q);
    long[] X = new long[n], Y = new long[n];
    for (int k = 0; k < n; k++) { X[k] = Math.floorMod((long) i(x[k]), m); Y[k] = Math.floorMod((long) i(y[k]), m); }
    Value[] r = new Value[n];
    for (int k = 0; k < n; k++) {
      long acc = 0;
      for (int j = 0; j < n; j++) {
        if (j <= k) acc += (X[j] * Y[k - j]) % m; else acc += m - (X[j] * Y[n + k - j]) % m;
      }
      r[k] = IntValue.gen((int) (acc % m));
    }
    return tup(r);
  }
  public static Value NegMulW(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    int n = x.length;
    int[] X = new int[n], Y = new int[n];
    for (int k = 0; k < n; k++) { X[k] = i(x[k]); Y[k] = i(y[k]); }
    Value[] r = new Value[n];
    for (int k = 0; k < n; k++) {
      int acc = 0;
      for (int j = 0; j < n; j++) acc += (j <= k) ? X[j] * Y[k - j] : -(X[j] * Y[n + k - j]);
      r[k] = IntValue.gen(acc);
    }
    return tup(r);
  }
  public static Value ZNegMul(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    int n = x.length;
    BigInteger[] X = new BigInteger[n], Y = new BigInteger[n];
    for (int k = 0; k < n; k++) { X[k] = z(x[k]); Y[k] = z(y[k]); }
    Value[] r = new Value[n];
    for (int k = 0; k < n; k++) {
      BigInteger acc = BigInteger.ZERO;
      for (int j = 0; j < n; j++)
        acc = (j <= k) ? acc.add(X[j].multiply(Y[k - j])) : acc.subtract(X[j].multiply(Y[n + k - j]));
      r[k] = s(acc);
    }
    return tup(r);
  }
  public static Value DotW(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    int acc = 0;
    for (int k = 0; k < x.length; k++) acc += i(x[k]) * i(y[k]);
    return IntValue.gen(acc);
  }
  public static Value VecAddW(Value a, Value b) {
    Value[] x = seq(a), y = seq(b), r = new Value[x.length];
    for (int k = 0; k < x.length; k++) r[k] = IntValue.gen(i(x[k]) + i(y[k]));
    return tup(r);
  }
  public static Value VecSubW(Value a, Value b) {
    Value[] x = seq(a), y = seq(b), r = new Value[x.length];
    for (int k = 0; k < x.length; k++) r[k] = IntValue.gen(i(x[k]) - i(y[k]));
    return tup(r);
  }
  public static Value VecNegW(Value a) {
    Value[] x = seq(a), r = new Value[x.length];
    for (int k = 0; k < x.length; k++) r[k] = IntValue.gen(-i(x[k]));
    return tup(r);
  }
  public static Value VecAddMod(Value a, Value b, Value q) {
    Value[] x = seq(a), y = seq(b), r = new Value[x.length];
    for (int k = 0; k < x.length; k++) r[k] = IntValue.gen((int) Math.floorMod((long) i(x[k]) + i(y[k]), (long) i(q)));
    return tup(r);
  }
  public static Value VecSubMod(Value a, Value b, Value q) {
    Value[] x = seq(a), y = seq(b), r = new Value[x.length];
    for (int k = 0; k < x.length; k++) r[k] = IntValue.gen((int) Math.floorMod((long) i(x[k]) - i(y[k]), (long) i(q)));
    return tup(r);
  }
  public static Value VecMulMod(Value a, Value b, Value q) {
    Value[] x = seq(a), y = seq(b), r = new Value[x.length];
    for (int k = 0; k < x.length; k++) r[k] = IntValue.gen((int) Math.floorMod((long) i(x[k]) * i(y[k]), (long) i(q)));
    return tup(r);
  }
  public static Value ZCrt(Value rs, Value qs) {
    Value[] r = seq(rs), q = seq(qs);
    BigInteger Q = BigInteger.ONE;
    for (Value v : q) Q = Q.multiply(z(v));
    BigInteger t = BigInteger.ZERO;
    for (int k = 0; k < q.length; k++) {
      BigInteger m = z(q[k]), h = Q.divide(m);
      t = t.add(h.multiply(z(r[k]).multiply(h.mod(m).modInverse(m)).mod(m)));
    }
    return s(t.mod(Q));
  }

  private static int rev(int x, int n) {
    int r = 0;
    for (int k = 1; k < n; k <<= 1) { r = (r << 1) | (x & 1); x >>= 1; }
    return r;
  }
  private static long pw(long b, long e, long q) {
    long r = 1 % q; b = Math.floorMod(b, q);
    for (; e > 0; e >>= 1) { if ((e & 1) == 1) r = r * b % q; b = b * b % q; }
    return r;
  }
  public static Value NttEval(Value a, Value qv, Value psiv) {
    Value[] x = seq(a); int n = x.length; long q = i(qv), psi = i(psiv);
    long[] p = new long[2 * n]; p[0] = 1 % q;
    for (int k = 1; k < 2 * n; k++) p[k] = p[k - 1] * psi % q;
    long last = p[2 * n - 1] * psi % q;
    Value[] r = new Value[n];
    for (int t = 0; t < n; t++) {
      long e = 2L * rev(t, n) + 1, acc = 0;
      for (int k = 0; k < n; k++) {
        long pe = last == 1 % q ? p[(int) ((k * e) % (2L * n))] : pw(psi, k * e, q);
        acc = (acc + Math.floorMod((long) i(x[k]), q) * pe) % q;
      }
      r[t] = IntValue.gen((int) acc);
    }
    return tup(r);
  }
  public static Value NttInterp(Value a, Value qv, Value psiv) {
    Value[] x = seq(a); int n = x.length; long q = i(qv), psi = pw(i(psiv), q - 2, q);
    long[] p = new long[2 * n]; p[0] = 1 % q;
    for (int k = 1; k < 2 * n; k++) p[k] = p[k - 1] * psi % q;
    long last = p[2 * n - 1] * psi % q, ninv = pw(n, q - 2, q);
    Value[] r = new Value[n];
    for (int k = 0; k < n; k++) {
      long acc = 0;
      for (int t = 0; t < n; t++) {
        long e = 2L * rev(t, n) + 1;
        long pe = last == 1 % q ? p[(int) ((k * e) % (2L * n))] : pw(psi, k * e, q);
        acc = (acc + Math.floorMod((long) i(x[t]), q) * pe) % q;
      }
      r[k] = IntValue.gen((int) (acc * ninv % q));
    }
    return tup(r);
  }
  public static Value MinRoot(Value mv, Value qv) {
    long m = i(mv), q = i(qv);
    for (long g = 2; ; g++) {
      long r = pw(g, (q - 1) / m, q);
      if (pw(r, m / 2, q) != q - 1) continue;
      long r2 = r * r % q, c = r, best = r;
      for (long k = 1; k < m; k += 2) { if (c < best) best = c; c = c * r2 % q; }
      return IntValue.gen((int) best);
    }
  }
  public static Value ZSqrt(Value a) { return s(z(a).sqrt()); }
}
