/* Evaluation of module F64 (see spec/F64.tla) for TLC. */
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

@SuppressWarnings("rawtypes")
public class F64Overrides implements ITLCOverrides {
   public Class[] get() { return new Class[] { F64Overrides.class }; }

   private static Value[] elems(Value v)
   {
      if (v instanceof TupleValue) return ((TupleValue) v).elems;
      Value t = v.toTuple();
      if (t == null) throw new RuntimeException("F64: not a sequence: " + v);
      return ((TupleValue) t).elems;
   }
   static double d(Value v)
   {
      final Value[] e = elems(v);
      return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
   }
   static Value f(double x)
   {
      final long b = Double.isNaN(x) ? 0x7ff8000000000000L : Double.doubleToRawLongBits(x);
      return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
   }
   static double[] dv(Value v)
   {
      final Value[] e = elems(v);
      final double[] r = new double[e.length];
      for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
      return r;
   }
   static Value fv(double[] x)
   {
      final Value[] e = new Value[x.length];
      for (int i = 0; i < x.length; i++) e[i] = f(x[i]);
      return new TupleValue(e);
   }
   static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
   static int n(Value v) { return ((IntValue) v).val; }

   @TLAPlusOperator(identifier = "FInt", module = "F64", warn = false)
   public static Value FInt(Value i) { return f(n(i)); }
   @TLAPlusOperator(identifier = "FRat", module = "F64", warn = false)
   public static Value FRat(Value p, Value q) { return f((double) n(p) / (double) n(q)); }
   @TLAPlusOperator(identifier = "FDec", module = "F64", warn = false)
   public static Value FDec(Value s) { return f(Double.parseDouble(((StringValue) s).val.toString())); }
   @TLAPlusOperator(identifier = "FPi", module = "F64", warn = false)
   public static Value FPi() { return f(Math.PI); }
   @TLAPlusOperator(identifier = "FAdd", module = "F64", warn = false)
   public static Value FAdd(Value a, Value c) { return f(d(a) + d(c)); }
   @TLAPlusOperator(identifier = "FSub", module = "F64", warn = false)
   public static Value FSub(Value a, Value c) { return f(d(a) - d(c)); }
   @TLAPlusOperator(identifier = "FMul", module = "F64", warn = false)
   public static Value FMul(Value a, Value c) { return f(d(a) * d(c)); }
   @TLAPlusOperator(identifier = "FDiv", module = "F64", warn = false)
   public static Value FDiv(Value a, Value c) { return f(d(a) / d(c)); }
   @TLAPlusOperator(identifier = "FNeg", module = "F64", warn = false)
   public static Value FNeg(Value a) { return f(-d(a)); }
   @TLAPlusOperator(identifier = "FAbs", module = "F64", warn = false)
   public static Value FAbs(Value a) { return f(Math.abs(d(a))); }
   @TLAPlusOperator(identifier = "FSqrt", module = "F64", warn = false)
   public static Value FSqrt(Value a) { return f(Math.sqrt(d(a))); }
   @TLAPlusOperator(identifier = "FExp", module = "F64", warn = false)
   public static Value FExp(Value a) { return f(Math.exp(d(a))); }
   @TLAPlusOperator(identifier = "FLn", module = "F64", warn = false)
   public static Value FLn(Value a) { return f(Math.log(d(a))); }
   @TLAPlusOperator(identifier = "FLog10", module = "F64", warn = false)
   public static Value FLog10(Value a) { return f(Math.log10(d(a))); }
   @TLAPlusOperator(identifier = "FSin", module = "F64", warn = false)
   public static Value FSin(Value a) { return f(Math.sin(d(a))); }
   @TLAPlusOperator(identifier = "FCos", module = "F64", warn = false)
   public static Value FCos(Value a) { return f(Math.cos(d(a))); }
   @TLAPlusOperator(identifier = "FAcos", module = "F64", warn = false)
   public static Value FAcos(Value a) { return f(Math.acos(d(a))); }
   @TLAPlusOperator(identifier = "FPowI", module = "F64", warn = false)
   public static Value FPowI(Value a, Value k) { return f(Math.pow(d(a), n(k))); }
   @TLAPlusOperator(identifier = "FMax", module = "F64", warn = false)
   public static Value FMax(Value a, Value c) { return f(Math.max(d(a), d(c))); }
   @TLAPlusOperator(identifier = "FMin", module = "F64", warn = false)
   public static Value FMin(Value a, Value c) { return f(Math.min(d(a), d(c))); }
   @TLAPlusOperator(identifier = "FLt", module = "F64", warn = false)
   public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
   @TLAPlusOperator(identifier = "FLe", module = "F64", warn = false)
   public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
   @TLAPlusOperator(identifier = "FEq", module = "F64", warn = false)
   public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
   @TLAPlusOperator(identifier = "FIsFinite", module = "F64", warn = false)
   public static Value FIsFinite(Value a) { return b(Double.isFinite(d(a))); }
   @TLAPlusOperator(identifier = "FIsNaN", module = "F64", warn = false)
   public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
   @TLAPlusOperator(identifier = "FFloor", module = "F64", warn = false)
   public static Value FFloor(Value a)
   {
      final double x = Math.floor(d(a));
      if (!(x >= Integer.MIN_VALUE && x <= Integer.MAX_VALUE)) throw new RuntimeException("FFloor: out of range: " + x);
      return IntValue.gen((int) x);
   }
   @TLAPlusOperator(identifier = "FShow", module = "F64", warn = false)
   public static Value FShow(Value a) { return new StringValue(Double.toString(d(a))); }

   @TLAPlusOperator(identifier = "FNear", module = "F64", warn = false)
   public static Value FNear(Value a, Value c, Value t) { return b(Math.abs(d(a) - d(c)) <= d(t)); }
   @TLAPlusOperator(identifier = "VSum", module = "F64", warn = false)
   public static Value VSum(Value v) { double s = 0; for (double x : dv(v)) s += x; return f(s); }
   @TLAPlusOperator(identifier = "VMaxAbs", module = "F64", warn = false)
   public static Value VMaxAbs(Value v) { double s = 0; for (double x : dv(v)) s = Math.max(s, Math.abs(x)); return f(s); }
   private static void same(double[] u, double[] v)
   {
      if (u.length != v.length) throw new RuntimeException("F64: lengths differ: " + u.length + ", " + v.length);
   }
   @TLAPlusOperator(identifier = "VDot", module = "F64", warn = false)
   public static Value VDot(Value a, Value c)
   {
      final double[] u = dv(a), v = dv(c); same(u, v);
      double s = 0; for (int i = 0; i < u.length; i++) s += u[i] * v[i];
      return f(s);
   }
   @TLAPlusOperator(identifier = "VAdd", module = "F64", warn = false)
   public static Value VAdd(Value a, Value c)
   { final double[] u = dv(a), v = dv(c); same(u, v); for (int i = 0; i < u.length; i++) u[i] += v[i]; return fv(u); }
   @TLAPlusOperator(identifier = "VSub", module = "F64", warn = false)
   public static Value VSub(Value a, Value c)
   { final double[] u = dv(a), v = dv(c); same(u, v); for (int i = 0; i < u.length; i++) u[i] -= v[i]; return fv(u); }
   @TLAPlusOperator(identifier = "VMul", module = "F64", warn = false)
   public static Value VMul(Value a, Value c)
   { final double[] u = dv(a), v = dv(c); same(u, v); for (int i = 0; i < u.length; i++) u[i] *= v[i]; return fv(u); }
   @TLAPlusOperator(identifier = "VScale", module = "F64", warn = false)
   public static Value VScale(Value a, Value c)
   { final double x = d(a); final double[] v = dv(c); for (int i = 0; i < v.length; i++) v[i] *= x; return fv(v); }
   @TLAPlusOperator(identifier = "VAxpy", module = "F64", warn = false)
   public static Value VAxpy(Value a, Value c, Value e)
   { final double x = d(a); final double[] u = dv(c), v = dv(e); same(u, v); for (int i = 0; i < u.length; i++) v[i] += x * u[i]; return fv(v); }
   @TLAPlusOperator(identifier = "VConst", module = "F64", warn = false)
   public static Value VConst(Value k, Value a)
   { final double[] u = new double[n(k)]; java.util.Arrays.fill(u, d(a)); return fv(u); }
   @TLAPlusOperator(identifier = "VAllFinite", module = "F64", warn = false)
   public static Value VAllFinite(Value v) { for (double x : dv(v)) if (!Double.isFinite(x)) return b(false); return b(true); }
   @TLAPlusOperator(identifier = "VFirstFar", module = "F64", warn = false)
   public static Value VFirstFar(Value a, Value c, Value t)
   {
      final double[] u = dv(a), v = dv(c), w = dv(t);
      if (u.length != v.length || u.length != w.length) return IntValue.gen(-1);
      for (int i = 0; i < u.length; i++) if (!(Math.abs(u[i] - v[i]) <= w[i])) return IntValue.gen(i + 1);
      return IntValue.gen(0);
   }
   @TLAPlusOperator(identifier = "VFirstDiff", module = "F64", warn = false)
   public static Value VFirstDiff(Value a, Value c)
   {
      final double[] u = dv(a), v = dv(c);
      if (u.length != v.length) return IntValue.gen(-1);
      for (int i = 0; i < u.length; i++)
         if (Double.doubleToRawLongBits(u[i]) != Double.doubleToRawLongBits(v[i])) return IntValue.gen(i + 1);
      return IntValue.gen(0);
   }
   private static final java.util.concurrent.ConcurrentHashMap<Integer, double[]> TAB = new java.util.concurrent.ConcurrentHashMap<>();
   private static double[] tab(int N)
   {
      return TAB.computeIfAbsent(N, k -> {
         final double[] t = new double[2 * k];
         for (int i = 0; i < 2 * k; i++) t[i] = Math.cos(Math.PI * i / k);
         return t; });
   }
   @TLAPlusOperator(identifier = "CosSum", module = "F64", warn = false)
   public static Value CosSum(Value vv, Value kk, Value NN)
   {
      final double[] v = dv(vv); final int N = n(NN); final long k = n(kk);
      final double[] t = tab(N);
      double s = 0;
      for (int i = 0; i < v.length; i++) s += v[i] * t[(int) ((k * i) % (2 * N))];
      return f(s);
   }
   @TLAPlusOperator(identifier = "SinSum", module = "F64", warn = false)
   public static Value SinSum(Value vv, Value kk, Value NN)
   {
      final double[] v = dv(vv); final int N = n(NN); final long k = n(kk);
      double s = 0;
      for (int i = 0; i < v.length; i++) s += v[i] * Math.sin(Math.PI * (double) ((k * i) % (2 * N)) / N);
      return f(s);
   }
   @TLAPlusOperator(identifier = "CosSums", module = "F64", warn = false)
   public static Value CosSums(Value vv, Value KK, Value NN)
   {
      final double[] v = dv(vv); final int N = n(NN), K = n(KK);
      final double[] t = tab(N), r = new double[K + 1];
      for (int k = 0; k <= K; k++) {
         double s = 0;
         for (int i = 0; i < v.length; i++) s += v[i] * t[(int) (((long) k * i) % (2 * N))];
         r[k] = s;
      }
      return fv(r);
   }
   @TLAPlusOperator(identifier = "MatVec", module = "F64", warn = false)
   public static Value MatVec(Value M, Value vv)
   {
      final Value[] rows = elems(M); final double[] v = dv(vv), r = new double[rows.length];
      for (int i = 0; i < r.length; i++) {
         final Value[] e = elems(rows[i]);
         if (e.length != v.length) throw new RuntimeException("F64: MatVec: lengths differ");
         double s = 0; for (int j = 0; j < v.length; j++) s += d(e[j]) * v[j];
         r[i] = s;
      }
      return fv(r);
   }
   @TLAPlusOperator(identifier = "VAbs", module = "F64", warn = false)
   public static Value VAbs(Value a)
   { final double[] u = dv(a); for (int i = 0; i < u.length; i++) u[i] = Math.abs(u[i]); return fv(u); }
   @TLAPlusOperator(identifier = "VMaxV", module = "F64", warn = false)
   public static Value VMaxV(Value a, Value c)
   { final double[] u = dv(a), v = dv(c); same(u, v); for (int i = 0; i < u.length; i++) u[i] = Math.max(u[i], v[i]); return fv(u); }
   @TLAPlusOperator(identifier = "VGather", module = "F64", warn = false)
   public static Value VGather(Value vv, Value idx)
   {
      final Value[] v = elems(vv), k = elems(idx), r = new Value[k.length];
      for (int i = 0; i < r.length; i++) r[i] = v[n(k[i]) - 1];
      return new TupleValue(r);
   }
   @TLAPlusOperator(identifier = "VScatter", module = "F64", warn = false)
   public static Value VScatter(Value vv, Value idx, Value ww)
   {
      final Value[] v = elems(vv).clone(), k = elems(idx), w = elems(ww);
      for (int i = 0; i < k.length; i++) { final int j = n(k[i]); if (j >= 1 && j <= v.length) v[j - 1] = w[i]; }
      return new TupleValue(v);
   }
   @TLAPlusOperator(identifier = "VConv", module = "F64", warn = false)
   public static Value VConv(Value vv, Value lo, Value hi, Value cc)
   {
      final double[] v = dv(vv), c = dv(cc); final int a = n(lo), m = n(hi) - a + 1;
      final double[] r = new double[Math.max(m, 0)];
      for (int i = 0; i < r.length; i++) { double s = 0; for (int j = 0; j < c.length; j++) s += c[j] * v[a - 1 + i + j]; r[i] = s; }
      return fv(r);
   }
   /* strtod on the longest numeric prefix; a NaN when there is none */
   private static final java.util.regex.Pattern NUM = java.util.regex.Pattern.compile("^[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?");
   private static final java.util.regex.Pattern INT = java.util.regex.Pattern.compile("^[+-]?[0-9]+");
   @TLAPlusOperator(identifier = "FParse", module = "F64", warn = false)
   public static Value FParse(Value s)
   {
      final java.util.regex.Matcher m = NUM.matcher(((StringValue) s).val.toString());
      return f(m.find() ? Double.parseDouble(m.group()) : Double.NaN);
   }
   static double whole(Value s)
   {
      final String t = ((StringValue) s).val.toString();
      if (t.equals("inf")) return Double.POSITIVE_INFINITY;
      if (t.equals("-inf")) return Double.NEGATIVE_INFINITY;
      final java.util.regex.Matcher m = NUM.matcher(t);
      return m.find() && m.end() == t.length() ? Double.parseDouble(t) : Double.NaN;
   }
   @TLAPlusOperator(identifier = "FNumber", module = "F64", warn = false)
   public static Value FNumber(Value s) { return f(whole(s)); }
   @TLAPlusOperator(identifier = "VNumber", module = "F64", warn = false)
   public static Value VNumber(Value ss)
   {
      final Value[] e = elems(ss); final double[] r = new double[e.length];
      for (int i = 0; i < e.length; i++) r[i] = whole(e[i]);
      return fv(r);
   }
   @TLAPlusOperator(identifier = "IParse", module = "F64", warn = false)
   public static Value IParse(Value s)
   {
      final java.util.regex.Matcher m = INT.matcher(((StringValue) s).val.toString());
      return IntValue.gen(m.find() ? Integer.parseInt(m.group().replace("+", "")) : Integer.MIN_VALUE);
   }
   @TLAPlusOperator(identifier = "VTail", module = "F64", warn = false)
   public static Value VTail(Value vv, Value ss)
   {
      final double[] v = dv(vv); final int s = n(ss);
      for (int i = v.length - 1 - s; i >= 0; i--) v[i] += v[i + s];
      return fv(v);
   }
   @TLAPlusOperator(identifier = "VDiv", module = "F64", warn = false)
   public static Value VDiv(Value a, Value c)
   { final double[] u = dv(a), v = dv(c); same(u, v); for (int i = 0; i < u.length; i++) u[i] /= v[i]; return fv(u); }
   @TLAPlusOperator(identifier = "VSqrt", module = "F64", warn = false)
   public static Value VSqrt(Value a)
   { final double[] u = dv(a); for (int i = 0; i < u.length; i++) u[i] = Math.sqrt(u[i]); return fv(u); }
   @TLAPlusOperator(identifier = "VAcos", module = "F64", warn = false)
   public static Value VAcos(Value a)
   { final double[] u = dv(a); for (int i = 0; i < u.length; i++) u[i] = Math.acos(u[i]); return fv(u); }
   @TLAPlusOperator(identifier = "VExp", module = "F64", warn = false)
   public static Value VExp(Value a)
   { final double[] u = dv(a); for (int i = 0; i < u.length; i++) u[i] = Math.exp(u[i]); return fv(u); }
   @TLAPlusOperator(identifier = "VLin", module = "F64", warn = false)
   public static Value VLin(Value cc, Value M)
   {
      final double[] c = dv(cc); final Value[] rows = elems(M);
      if (c.length != rows.length) throw new RuntimeException("F64: VLin: lengths differ");
      double[] r = null;
      for (int i = 0; i < c.length; i++) {
         final double[] v = dv(rows[i]);
         if (r == null) r = new double[v.length];
         for (int j = 0; j < r.length; j++) r[j] += c[i] * v[j];
      }
      return fv(r);
   }
   private static final java.util.concurrent.ConcurrentHashMap<Integer, double[]> STAB = new java.util.concurrent.ConcurrentHashMap<>();
   private static double[] stab(int N)
   {
      return STAB.computeIfAbsent(N, k -> {
         final double[] t = new double[2 * k];
         for (int i = 0; i < 2 * k; i++) t[i] = Math.sin(Math.PI * i / k);
         return t; });
   }
   private static Value row(Value vv, Value RR, Value NN, Value mm, boolean cos)
   {
      final double[] v = dv(vv); final int R = n(RR), N = n(NN); final long m = n(mm);
      final double[] t = cos ? tab(N) : stab(N), r = new double[R];
      for (int j = 0; j < R; j++) {
         double s = 0;
         for (int k = 0; k < N; k++) s += v[j * N + k] * t[(int) ((2 * m * k) % (2 * N))];
         r[j] = s;
      }
      return fv(r);
   }
   @TLAPlusOperator(identifier = "RowCos", module = "F64", warn = false)
   public static Value RowCos(Value v, Value R, Value N, Value m) { return row(v, R, N, m, true); }
   @TLAPlusOperator(identifier = "RowSin", module = "F64", warn = false)
   public static Value RowSin(Value v, Value R, Value N, Value m) { return row(v, R, N, m, false); }
   @TLAPlusOperator(identifier = "RowSyn", module = "F64", warn = false)
   public static Value RowSyn(Value a, Value c, Value mm, Value NN)
   {
      final double[] re = dv(a), im = dv(c); final int N = n(NN); final long m = n(mm);
      same(re, im);
      final double[] ct = tab(N), st = stab(N), r = new double[re.length * N];
      for (int j = 0; j < re.length; j++)
         for (int k = 0; k < N; k++) {
            final int q = (int) ((2 * m * k) % (2 * N));
            r[j * N + k] = re[j] * ct[q] - im[j] * st[q];
         }
      return fv(r);
   }
   @TLAPlusOperator(identifier = "VCut", module = "F64", warn = false)
   public static Value VCut(Value vv, Value NN)
   {
      final Value[] v = elems(vv); final int N = n(NN);
      final Value[] r = new Value[v.length / N];
      for (int i = 0; i < r.length; i++) r[i] = new TupleValue(java.util.Arrays.copyOfRange(v, i * N, (i + 1) * N));
      return new TupleValue(r);
   }
   @TLAPlusOperator(identifier = "VFlat", module = "F64", warn = false)
   public static Value VFlat(Value rows)
   {
      final java.util.ArrayList<Value> r = new java.util.ArrayList<>();
      for (Value x : elems(rows)) java.util.Collections.addAll(r, elems(x));
      return new TupleValue(r.toArray(new Value[0]));
   }
   @TLAPlusOperator(identifier = "VTrans", module = "F64", warn = false)
   public static Value VTrans(Value vv, Value RR, Value CC)
   {
      final Value[] v = elems(vv); final int R = n(RR), C = n(CC); final Value[] r = new Value[R * C];
      for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) r[j * R + i] = v[i * C + j];
      return new TupleValue(r);
   }
}
