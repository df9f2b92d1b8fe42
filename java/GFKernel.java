package m4xverif;

import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Accelerators for the operators of spec/GF.tla; their definitions are in spec/GFDef.tla. */
public class GFKernel implements ITLCOverrides {
  @Override
  public Class[] get() {
    return new Class[] {GFKernel.class};
  }

  // ------------------------------------------------------------------ fields
  static final class Field {
    final int p, e, q;
    final int[] exp, log;

    Field(int p) {
      this.p = p;
      this.e = 31 - Integer.numberOfLeadingZeros(p);
      this.q = 1 << e;
      int[] ex = new int[2 * q];
      int[] lg = new int[q];
      boolean ok = e == 0;
      if (q == 2) { ex[0] = 1; ex[1] = 1; lg[1] = 0; ok = true; }
      for (int g = 2; g < q && !ok; g++) {
        int x = 1, k = 0;
        java.util.Arrays.fill(lg, -1);
        do {
          ex[k] = x;
          lg[x] = k;
          k++;
          x = slow(x, g);
        } while (x != 1 && k < q && x != 0);
        ok = k == q - 1;
      }
      if (!ok) throw new RuntimeException("no generator: reducible polynomial " + p);
      for (int k = 0; k < q - 1; k++) ex[k + q - 1] = ex[k];
      exp = ex;
      log = lg;
    }

    int slow(int a, int b) {
      return (int) pmod(pmul(a, b), p);
    }

    int mul(int a, int b) {
      if (a == 0 || b == 0) return 0;
      return exp[log[a] + log[b]];
    }

    int inv(int a) {
      return exp[(q - 1 - log[a]) % (q - 1)];
    }
  }

  static final ConcurrentHashMap<Integer, Field> FIELDS = new ConcurrentHashMap<>();

  static Field field(int p) {
    return FIELDS.computeIfAbsent(p, Field::new);
  }

  static long pmul(long a, long b) {
    long r = 0;
    for (; b != 0; b >>>= 1, a <<= 1) if ((b & 1) != 0) r ^= a;
    return r;
  }

  static long pmod(long x, long p) {
    int e = 63 - Long.numberOfLeadingZeros(p);
    for (int i = 62; i >= e; i--) if ((x >>> i & 1) != 0) x ^= p << (i - e);
    return x;
  }

  // --------------------------------------------------------------- marshalling
  static int num(Value v) {
    return ((IntValue) v).val;
  }

  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return t.elems;
  }

  static int[] row(Value v, int n) {
    Value[] e = seq(v);
    int[] r = new int[n];
    for (int j = 0; j < n; j++) r[j] = num(e[j]);
    return r;
  }

  static int[][] mat(Value v, int m, int n) {
    Value[] e = seq(v);
    int[][] r = new int[m][];
    for (int i = 0; i < m; i++) r[i] = row(e[i], n);
    return r;
  }

  static Value unrow(int[] r) {
    Value[] e = new Value[r.length];
    for (int j = 0; j < r.length; j++) e[j] = IntValue.gen(r[j]);
    return new TupleValue(e);
  }

  static Value unmat(int[][] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = unrow(a[i]);
    return new TupleValue(e);
  }

  // ------------------------------------------------------------------ operators
  @TLAPlusOperator(identifier = "Deg", module = "GF", warn = false)
  public static Value deg(Value a) {
    return IntValue.gen(31 - Integer.numberOfLeadingZeros(num(a)));
  }

  @TLAPlusOperator(identifier = "PMul", module = "GF", warn = false)
  public static Value pMul(Value a, Value b) {
    return IntValue.gen((int) pmul(num(a), num(b)));
  }

  @TLAPlusOperator(identifier = "PMod", module = "GF", warn = false)
  public static Value pMod(Value a, Value p) {
    return IntValue.gen((int) pmod(num(a), num(p)));
  }

  @TLAPlusOperator(identifier = "FMul", module = "GF", warn = false)
  public static Value fMul(Value p, Value a, Value b) {
    int pp = num(p);
    long r = pmul(num(a), num(b));
    return IntValue.gen((int) (pp == 0 ? r : pmod(r, pp)));
  }

  @TLAPlusOperator(identifier = "FInv", module = "GF", warn = false)
  public static Value fInv(Value p, Value a) {
    return IntValue.gen(field(num(p)).inv(num(a)));
  }

  @TLAPlusOperator(identifier = "Irreducible", module = "GF", warn = false)
  public static Value irreducible(Value p) {
    int pp = num(p);
    if (pp < 2) return BoolValue.ValFalse;
    int half = (31 - Integer.numberOfLeadingZeros(pp)) / 2;
    for (int q = 2; q < (2 << half); q++)
      if (pmod(pp, q) == 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  @TLAPlusOperator(identifier = "ZeroMat", module = "GF", warn = false)
  public static Value zeroMat(Value m, Value n) {
    return unmat(new int[num(m)][num(n)]);
  }

  @TLAPlusOperator(identifier = "DiagMat", module = "GF", warn = false)
  public static Value diagMat(Value a, Value m, Value n) {
    int[][] r = new int[num(m)][num(n)];
    for (int i = 0; i < r.length && i < num(n); i++) r[i][i] = num(a);
    return unmat(r);
  }

  @TLAPlusOperator(identifier = "MatAdd", module = "GF", warn = false)
  public static Value matAdd(Value A, Value B, Value m, Value n) {
    int M = num(m), N = num(n);
    int[][] a = mat(A, M, N), b = mat(B, M, N);
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) a[i][j] ^= b[i][j];
    return unmat(a);
  }

  @TLAPlusOperator(identifier = "MatScale", module = "GF", warn = false)
  public static Value matScale(Value p, Value x, Value A, Value m, Value n) {
    int M = num(m), N = num(n), P = num(p), X = num(x);
    int[][] a = mat(A, M, N);
    for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
        long t = pmul(X, a[i][j]);
        a[i][j] = (int) (P == 0 ? t : pmod(t, P));
      }
    return unmat(a);
  }

  @TLAPlusOperator(identifier = "MatMul", module = "GF", warn = false)
  public static Value matMul(Value p, Value A, Value B, Value m, Value k, Value n) {
    int M = num(m), K = num(k), N = num(n), P = num(p);
    int[][] a = mat(A, M, K), b = mat(B, K, N), c = new int[M][N];
    if (P == 0) {
      for (int i = 0; i < M; i++)
        for (int t = 0; t < K; t++) {
          int x = a[i][t];
          if (x != 0) for (int j = 0; j < N; j++) c[i][j] ^= (int) pmul(x, b[t][j]);
        }
      return unmat(c);
    }
    Field f = field(P);
    int[] exp = f.exp, log = f.log;
    for (int i = 0; i < M; i++) {
      int[] ci = c[i];
      for (int t = 0; t < K; t++) {
        int x = a[i][t];
        if (x == 0) continue;
        int lx = log[x];
        int[] bt = b[t];
        for (int j = 0; j < N; j++) {
          int y = bt[j];
          if (y != 0) ci[j] ^= exp[lx + log[y]];
        }
      }
    }
    return unmat(c);
  }

  @TLAPlusOperator(identifier = "Block", module = "GF", warn = false)
  public static Value block(Value A, Value r0, Value c0, Value m, Value n) {
    int R = num(r0), C = num(c0), M = num(m), N = num(n);
    Value[] rows = seq(A);
    Value[] out = new Value[M];
    for (int i = 0; i < M; i++) {
      Value[] src = seq(rows[R + i]);
      Value[] e = new Value[N];
      for (int j = 0; j < N; j++) e[j] = src[C + j];
      out[i] = new TupleValue(e);
    }
    return new TupleValue(out);
  }

  @TLAPlusOperator(identifier = "Paste", module = "GF", warn = false)
  public static Value paste(Value A, Value am, Value an, Value r0, Value c0, Value B, Value m, Value n) {
    int R = num(r0), C = num(c0), M = num(m), N = num(n), AM = num(am), AN = num(an);
    Value[] rows = seq(A), brows = seq(B);
    Value[] out = new Value[AM];
    for (int i = 0; i < AM; i++) {
      Value[] e = seq(rows[i]);
      if (e.length != AN) throw new RuntimeException("Paste: wrong row length");
      e = e.clone();
      if (i >= R && i < R + M) {
        Value[] src = seq(brows[i - R]);
        for (int j = 0; j < N && C + j < AN; j++) e[C + j] = src[j];
      }
      out[i] = new TupleValue(e);
    }
    return new TupleValue(out);
  }

  @TLAPlusOperator(identifier = "RREF", module = "GF", warn = false)
  public static Value rref(Value p, Value A, Value m, Value n) {
    int M = num(m), N = num(n);
    int[][] a = mat(A, M, N);
    Field f = field(num(p));
    int r = 0;
    for (int c = 0; c < N && r < M; c++) {
      int q = r;
      while (q < M && a[q][c] == 0) q++;
      if (q == M) continue;
      int[] t = a[q];
      a[q] = a[r];
      a[r] = t;
      int inv = f.inv(t[c]);
      for (int j = 0; j < N; j++) t[j] = f.mul(inv, t[j]);
      for (int i = 0; i < M; i++) {
        int x = a[i][c];
        if (i == r || x == 0) continue;
        int lx = f.log[x];
        for (int j = 0; j < N; j++) if (t[j] != 0) a[i][j] ^= f.exp[lx + f.log[t[j]]];
      }
      r++;
    }
    return new TupleValue(unmat(a), IntValue.gen(r));
  }

  static int lead(int[] r) {
    for (int j = 0; j < r.length; j++) if (r[j] != 0) return j + 1;
    return r.length + 1;
  }

  @TLAPlusOperator(identifier = "Lead", module = "GF", warn = false)
  public static Value leadOp(Value r, Value n) {
    return IntValue.gen(lead(row(r, num(n))));
  }

  @TLAPlusOperator(identifier = "IsREF", module = "GF", warn = false)
  public static Value isREF(Value A, Value m, Value n) {
    int M = num(m), N = num(n);
    int[][] a = mat(A, M, N);
    for (int i = 0; i + 1 < M; i++) {
      int l = lead(a[i + 1]);
      if (l <= N && lead(a[i]) >= l) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
}
