/** System.arraycopy against its specification: every array type, offsets and lengths around every boundary, overlap, wrong types. */
public class CopyCases {
  static int bad;
  static void bad(String s) { if (++bad < 40) System.out.println("BAD " + s); }
  static final int M = Integer.MAX_VALUE, N = Integer.MIN_VALUE;
  static Object make(int type, int n, int seed) {
    switch (type) {
    case 0: { byte[] a = new byte[n]; for (int i = 0; i < n; ++i) a[i] = (byte) (seed + i); return a; }
    case 1: { boolean[] a = new boolean[n]; for (int i = 0; i < n; ++i) a[i] = ((seed + i) % 3) == 0; return a; }
    case 2: { char[] a = new char[n]; for (int i = 0; i < n; ++i) a[i] = (char) (seed + 257 * i); return a; }
    case 3: { short[] a = new short[n]; for (int i = 0; i < n; ++i) a[i] = (short) (seed - 300 * i); return a; }
    case 4: { int[] a = new int[n]; for (int i = 0; i < n; ++i) a[i] = seed * 70000 + i; return a; }
    case 5: { float[] a = new float[n]; for (int i = 0; i < n; ++i) a[i] = seed + i * 0.5f; return a; }
    case 6: { long[] a = new long[n]; for (int i = 0; i < n; ++i) a[i] = seed * 5000000000L + i; return a; }
    case 7: { double[] a = new double[n]; for (int i = 0; i < n; ++i) a[i] = seed + i * 0.25; return a; }
    case 8: { Object[] a = new Object[n]; for (int i = 0; i < n; ++i) a[i] = i == 2 ? null : "s" + seed + "." + i; return a; }
    case 9: { String[] a = new String[n]; for (int i = 0; i < n; ++i) a[i] = i == 1 ? null : "t" + seed + "." + i; return a; }
    case 10: { int[][] a = new int[n][]; for (int i = 0; i < n; ++i) a[i] = new int[] { seed, i }; return a; }
    }
    return null;
  }
  static Object get(Object a, int i) {
    if (a instanceof byte[]) return ((byte[]) a)[i];
    if (a instanceof boolean[]) return ((boolean[]) a)[i];
    if (a instanceof char[]) return ((char[]) a)[i];
    if (a instanceof short[]) return ((short[]) a)[i];
    if (a instanceof int[]) return ((int[]) a)[i];
    if (a instanceof float[]) return ((float[]) a)[i];
    if (a instanceof long[]) return ((long[]) a)[i];
    if (a instanceof double[]) return ((double[]) a)[i];
    return ((Object[]) a)[i];
  }
  static int len(Object a) {
    if (a instanceof byte[]) return ((byte[]) a).length;
    if (a instanceof boolean[]) return ((boolean[]) a).length;
    if (a instanceof char[]) return ((char[]) a).length;
    if (a instanceof short[]) return ((short[]) a).length;
    if (a instanceof int[]) return ((int[]) a).length;
    if (a instanceof float[]) return ((float[]) a).length;
    if (a instanceof long[]) return ((long[]) a).length;
    if (a instanceof double[]) return ((double[]) a).length;
    return ((Object[]) a).length;
  }
  static boolean same(Object a, Object b) { return a == b || (a != null && b != null && (a instanceof Number || a instanceof Character || a instanceof Boolean) && a.equals(b)); }
  static Object[] snap(Object a) { Object[] r = new Object[len(a)]; for (int i = 0; i < r.length; ++i) r[i] = get(a, i); return r; }
  static void check(String what, Object src, int so, Object dst, int d, int n, Class<?> exc) {
    Object[] s0 = snap(src), d0 = snap(dst);
    Class<?> got = null;
    try { System.arraycopy(src, so, dst, d, n); } catch (Throwable e) { got = e.getClass(); }
    String w = what + " arraycopy(" + so + ", " + d + ", " + n + ") lengths " + s0.length + ", " + d0.length;
    if (exc == null ? got != null : got == null || !exc.isAssignableFrom(got)) { bad(w + ": expected " + exc + ", got " + got); if (got == null) return; }
    for (int i = 0; i < d0.length; ++i) {
      Object e = exc == null && i >= d && i < d + n ? s0[so + i - d] : d0[i];
      if (!same(e, get(dst, i))) { bad(w + ": element " + i + " of the target is " + get(dst, i) + ", expected " + e); break; }
    }
    if (src != dst) for (int i = 0; i < s0.length; ++i) if (!same(s0[i], get(src, i))) { bad(w + ": the source changed"); break; }
  }
  static void ranges(String what, int type, int type2, int ls, int ld, boolean same) {
    int[] v = { 0, 1, 2, 3, ls - 1, ls, ls + 1, ld, ld + 1, -1, M, N, M - 1 };
    for (int so : v) for (int d : v) for (int n : v) {
      boolean ok = so >= 0 && d >= 0 && n >= 0 && (long) so + n <= ls && (long) d + n <= ld;
      Object src = make(type, ls, 7), dst = same ? src : make(type2, ld, 90);
      check(what, src, so, dst, d, n, ok ? null : IndexOutOfBoundsException.class);
    }
  }
  static void fails(String what, Object src, Object dst, Class<?> exc) {
    for (int n : new int[] { 0, 1, -1 }) {
      Class<?> got = null;
      try { System.arraycopy(src, 0, dst, 0, n); } catch (Throwable e) { got = e.getClass(); }
      if (got == null || !exc.isAssignableFrom(got)) bad(what + " (" + n + " elements): expected " + exc + ", got " + got);
    }
  }
  static Object sink;
  /** allocates about 10 MB, so that the collector runs on its own (minor collections, unlike System.gc()) */
  static void minor() { for (int i = 0; i < 60000; ++i) { int[] x = new int[40]; java.util.Arrays.fill(x, -1); sink = x; } }
  static Object[] fresh(int n, int from, int count, int round) {
    Object[] a = new Object[n]; for (int k = 0; k < count; ++k) a[from + k] = new int[] { from + k, round, 77 };
    return a;
  }
  static void survive(int so, int d, int n) {
    Object[] old = new Object[300];
    for (int i = 0; i < 8; ++i) System.gc();
    for (int round = 0; round < 2; ++round) {
      System.arraycopy(fresh(300, so, n, round), so, old, d, n);
      minor(); minor();
      for (int i = 0; i < n; ++i) { int[] e = (int[]) old[d + i];
        if (e.length != 3 || e[0] != so + i || e[1] != round || e[2] != 77) { bad("arraycopy(" + so + ", " + d + ", " + n + ") into an old array: element " + (d + i) + " was lost by a collection"); break; } }
    }
  }
  public static void main(String[] args) {
    for (int t = 0; t <= 10; ++t) {
      ranges("type " + t, t, t, 5, 7, false);
      ranges("type " + t + ", one array", t, t, 9, 9, true);
    }
    ranges("String[] to Object[]", 9, 8, 4, 6, false);
    ranges("int[][] to Object[]", 10, 8, 4, 6, false);
    for (int a = 0; a <= 10; ++a) for (int b = 0; b <= 10; ++b)
      if (a != b && (a < 8 || b < 8)) fails("array types " + a + " and " + b, make(a, 3, 1), make(b, 3, 2), ArrayStoreException.class);
    for (int a = 0; a <= 10; ++a) {
      fails("no array as source", "abcdefgh", make(a, 3, 1), ArrayStoreException.class);
      fails("no array as target", make(a, 3, 1), "abcdefgh", ArrayStoreException.class);
      fails("null source", null, make(a, 3, 1), NullPointerException.class);
      fails("null target", make(a, 3, 1), null, NullPointerException.class);
    }
    fails("two nulls", null, null, NullPointerException.class);
    String str = "xyz"; fails("an object onto itself", str, str, ArrayStoreException.class);
    // large arrays
    int[] big = new int[70000]; for (int i = 0; i < big.length; ++i) big[i] = i * 3;
    int[] to = new int[70000]; System.arraycopy(big, 100, to, 66000, 3999);
    for (int i = 0; i < to.length; ++i) if (to[i] != (i >= 66000 && i < 69999 ? (i - 66000 + 100) * 3 : 0)) { bad("large array element " + i); break; }
    System.arraycopy(big, 0, big, 1, 69999);
    for (int i = 1; i < big.length; ++i) if (big[i] != (i - 1) * 3) { bad("large overlapping array element " + i); break; }
    // an old array filled with young objects
    Object[] old = new Object[200]; System.gc(); System.gc(); System.gc(); System.gc();
    for (int round = 0; round < 4; ++round) {
      Object[] young = new Object[200]; for (int i = 0; i < 200; ++i) young[i] = new int[] { i, round };
      System.arraycopy(young, 20, old, 10, 150); young = null;
      System.gc(); byte[][] junk = new byte[100][]; for (int i = 0; i < 100; ++i) junk[i] = new byte[1000]; System.gc();
      for (int i = 10; i < 160; ++i) { int[] e = (int[]) old[i]; if (e.length != 2 || e[0] != i + 10 || e[1] != round) { bad("element " + i + " was lost by a collection"); break; } }
    }
    survive(100, 5, 20); survive(3, 200, 60); survive(40, 90, 1); survive(0, 299, 1); survive(150, 0, 150);
    try { String[] d = new String[1]; System.arraycopy(new Object[] { new Object() }, 0, d, 0, 1); System.out.println("BAD store check: an Object was copied into a String[]"); }
    catch (ArrayStoreException e) { }
    System.out.println("DONE");
  }
}
