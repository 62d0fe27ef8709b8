// Concrete array/field/type cases with known answers; prints one line per mismatch and DONE at the end.
public class HeapCases {
  static void bad(String s) { System.out.println("BAD " + s); }
  static void eq(String what, long e, long g) { if (e != g) bad(what + ": expected " + e + " got " + g); }
  static final int[] IDX = {-1, -2, Integer.MIN_VALUE, Integer.MAX_VALUE, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 255, 256, 257, 65535, 65536, 65537, 0x20000000, 0x40000000, 0x7ffffff0, -65536, -65535, 0xffff0001, 0x80000001, 0xe0000001};
  static final int[] LEN = {0, 1, 2, 3, 7, 8, 16, 255, 256, 257, 65535, 65536, 65537};
  static final int[] VI = {0, 1, -1, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, -128, -129, -32768, -32769, Integer.MAX_VALUE, Integer.MIN_VALUE, 0x12345678};
  static final long[] VL = {0, 1, -1, 0x123456789abcdef0L, Long.MIN_VALUE, Long.MAX_VALUE, 0xffffffffL, 0x100000000L, -0x80000000L};
  interface Acc { Object mk(int n); void st(Object a, int i, int v); long ld(Object a, int i); int len(Object a); long conv(int v); }
  static final Acc[] ACC = {
    new Acc() { public Object mk(int n) { return new byte[n]; } public void st(Object a, int i, int v) { ((byte[]) a)[i] = (byte) v; } public long ld(Object a, int i) { return ((byte[]) a)[i]; } public int len(Object a) { return ((byte[]) a).length; } public long conv(int v) { return (long) (v << 24 >> 24); } public String toString() { return "byte[]"; } },
    new Acc() { public Object mk(int n) { return new boolean[n]; } public void st(Object a, int i, int v) { ((boolean[]) a)[i] = (v & 1) != 0; } public long ld(Object a, int i) { return ((boolean[]) a)[i] ? 1 : 0; } public int len(Object a) { return ((boolean[]) a).length; } public long conv(int v) { return v & 1; } public String toString() { return "boolean[]"; } },
    new Acc() { public Object mk(int n) { return new char[n]; } public void st(Object a, int i, int v) { ((char[]) a)[i] = (char) v; } public long ld(Object a, int i) { return ((char[]) a)[i]; } public int len(Object a) { return ((char[]) a).length; } public long conv(int v) { return v & 0xffff; } public String toString() { return "char[]"; } },
    new Acc() { public Object mk(int n) { return new short[n]; } public void st(Object a, int i, int v) { ((short[]) a)[i] = (short) v; } public long ld(Object a, int i) { return ((short[]) a)[i]; } public int len(Object a) { return ((short[]) a).length; } public long conv(int v) { return (long) (v << 16 >> 16); } public String toString() { return "short[]"; } },
    new Acc() { public Object mk(int n) { return new int[n]; } public void st(Object a, int i, int v) { ((int[]) a)[i] = v; } public long ld(Object a, int i) { return ((int[]) a)[i]; } public int len(Object a) { return ((int[]) a).length; } public long conv(int v) { return v; } public String toString() { return "int[]"; } },
    new Acc() { public Object mk(int n) { return new float[n]; } public void st(Object a, int i, int v) { ((float[]) a)[i] = Float.intBitsToFloat(v & 0x7f7fffff); } public long ld(Object a, int i) { return Float.floatToRawIntBits(((float[]) a)[i]); } public int len(Object a) { return ((float[]) a).length; } public long conv(int v) { return v & 0x7f7fffff; } public String toString() { return "float[]"; } },
    new Acc() { public Object mk(int n) { return new long[n]; } public void st(Object a, int i, int v) { ((long[]) a)[i] = v * 0x100000003L; } public long ld(Object a, int i) { return ((long[]) a)[i]; } public int len(Object a) { return ((long[]) a).length; } public long conv(int v) { return v * 0x100000003L; } public String toString() { return "long[]"; } },
    new Acc() { public Object mk(int n) { return new double[n]; } public void st(Object a, int i, int v) { ((double[]) a)[i] = v + 0.5; } public long ld(Object a, int i) { return (long) (((double[]) a)[i] * 2); } public int len(Object a) { return ((double[]) a).length; } public long conv(int v) { return 2L * v + 1; } public String toString() { return "double[]"; } },
    new Acc() { public Object mk(int n) { Object[] a = new Object[n]; for (int i = 0; i < n; ++i) a[i] = Integer.valueOf(0); return a; } public void st(Object a, int i, int v) { ((Object[]) a)[i] = Integer.valueOf(v); } public long ld(Object a, int i) { return ((Integer) ((Object[]) a)[i]).intValue(); } public int len(Object a) { return ((Object[]) a).length; } public long conv(int v) { return v; } public String toString() { return "Object[]"; } },
  };
  static String cls(Throwable t) { return t.getClass().getName(); }
  static void arrays() { if (hidden) return;
    for (int q = 0; q < ACC.length; ++q) {
      Acc a = ACC[q];
      try { a.st(null, 0, 1); bad(a + " store to null did not throw"); } catch (NullPointerException e) { } catch (Throwable e) { bad(a + " store to null threw " + cls(e)); }
      try { a.ld(null, 0); bad(a + " load from null did not throw"); } catch (NullPointerException e) { } catch (Throwable e) { bad(a + " load from null threw " + cls(e)); }
      try { a.len(null); bad(a + " length of null did not throw"); } catch (NullPointerException e) { } catch (Throwable e) { bad(a + " length of null threw " + cls(e)); }
      for (int l = 0; l < LEN.length; ++l) {
        int n = LEN[l];
        if (n > 300 && q == 8) continue;
        Object x = a.mk(n);
        eq(a + " length", n, a.len(x));
        for (int k = 0; k < IDX.length; ++k) {
          int i = IDX[k];
          boolean in = i >= 0 && i < n;
          int v = VI[(k + l) % VI.length];
          try { a.st(x, i, v); if (!in) bad(a + " of length " + n + ": store at " + i + " did not throw"); } catch (ArrayIndexOutOfBoundsException e) { if (in) bad(a + " of length " + n + ": store at " + i + " threw"); } catch (Throwable e) { bad(a + " store threw " + cls(e)); }
          try { long g = a.ld(x, i); if (!in) bad(a + " of length " + n + ": load at " + i + " did not throw"); else eq(a + " element " + i, a.conv(v), g); } catch (ArrayIndexOutOfBoundsException e) { if (in) bad(a + " of length " + n + ": load at " + i + " threw"); } catch (Throwable e) { bad(a + " load threw " + cls(e)); }
        }
        if (n >= 3 && n < 300) for (int k = 0; k < VI.length; ++k) {
          for (int i = 0; i < n; ++i) a.st(x, i, 1);
          a.st(x, 1, VI[k]);
          eq(a + " value " + VI[k], a.conv(VI[k]), a.ld(x, 1));
          for (int i = 0; i < n; ++i) if (i != 1) eq(a + " neighbour " + i + " of stored " + VI[k], a.conv(1), a.ld(x, i));
        }
      }
      int[] neg = {-1, Integer.MIN_VALUE, -65536, -100};
      for (int k = 0; k < neg.length; ++k)
        try { if (q == 8) new2(neg[k]); else a.mk(neg[k]); bad(a + " new of size " + neg[k] + " did not throw"); } catch (NegativeArraySizeException e) { } catch (Throwable e) { bad(a + " new of negative size threw " + cls(e)); }
    }
  }
  static Object new2(int n) { return new Object[n]; }
  static int next;
  static int n(int v) { return v; }
  static void multi() { if (hidden) return;
    int[] D = {0, 1, 2, 3, -1, Integer.MIN_VALUE};
    for (int a = 0; a < D.length; ++a) for (int b = 0; b < D.length; ++b) for (int c = 0; c < D.length; ++c) {
      boolean neg = D[a] < 0 || D[b] < 0 || D[c] < 0;
      try {
        int[][][] x = new int[D[a]][D[b]][D[c]];
        if (neg) bad("multianewarray " + D[a] + "," + D[b] + "," + D[c] + " did not throw");
        else {
          eq("multi dim0", D[a], x.length);
          if (!x.getClass().getName().equals("[[[I")) bad("multi class " + x.getClass().getName());
          for (int i = 0; i < x.length; ++i) { eq("multi dim1", D[b], x[i].length); for (int j = 0; j < x[i].length; ++j) { eq("multi dim2", D[c], x[i][j].length); for (int k = 0; k < x[i][j].length; ++k) x[i][j][k] = i * 100 + j * 10 + k; } }
          for (int i = 0; i < x.length; ++i) for (int j = 0; j < x[i].length; ++j) for (int k = 0; k < x[i][j].length; ++k) eq("multi element", i * 100 + j * 10 + k, x[i][j][k]);
        }
      } catch (NegativeArraySizeException e) { if (!neg) bad("multianewarray threw"); } catch (Throwable e) { bad("multianewarray threw " + cls(e)); }
    }
    long[][] p = new long[3][]; if (p.length != 3 || p[0] != null || p[2] != null) bad("partial multianewarray");
    Object[][][][] q = new Object[2][3][4][]; if (q.length != 2 || q[1].length != 3 || q[1][2].length != 4 || q[1][2][3] != null) bad("partial multianewarray 4");
  }
  static class F {
    byte pad0; boolean z; byte b; char c; short s; int i; float f; long l; double d; Object o;
    volatile boolean vz; volatile byte vb; volatile char vc; volatile short vs; volatile int vi; volatile float vf; volatile long vl; volatile double vd; volatile Object vo; byte pad1;
  }
  static class S {
    static byte pad0; static boolean z; static byte b; static char c; static short s; static int i; static float f; static long l; static double d; static Object o;
    static volatile boolean vz; static volatile byte vb; static volatile char vc; static volatile short vs; static volatile int vi; static volatile float vf; static volatile long vl; static volatile double vd; static volatile Object vo; static byte pad1;
  }
  static void check(String w, F x, int v, long l, Object o) { if (hidden) return;
    eq(w + " byte", (v << 24) >> 24, x.b); eq(w + " char", v & 0xffff, x.c); eq(w + " short", (v << 16) >> 16, x.s); eq(w + " int", v, x.i); eq(w + " long", l, x.l);
    eq(w + " boolean", v & 1, x.z ? 1 : 0); eq(w + " float", v & 0x7f7fffff, Float.floatToRawIntBits(x.f)); eq(w + " double", l & 0x7fefffffffffffffL, Double.doubleToRawLongBits(x.d)); if (x.o != o) bad(w + " object");
    eq(w + " vbyte", (v << 24) >> 24, x.vb); eq(w + " vchar", v & 0xffff, x.vc); eq(w + " vshort", (v << 16) >> 16, x.vs); eq(w + " vint", v, x.vi); eq(w + " vlong", l, x.vl);
    eq(w + " vboolean", v & 1, x.vz ? 1 : 0); eq(w + " vfloat", v & 0x7f7fffff, Float.floatToRawIntBits(x.vf)); eq(w + " vdouble", l & 0x7fefffffffffffffL, Double.doubleToRawLongBits(x.vd)); if (x.vo != o) bad(w + " vobject");
    eq(w + " pad", 0, x.pad0); eq(w + " pad", 0, x.pad1);
  }
  static void checkS(String w, int v, long l, Object o) { if (hidden) return;
    eq(w + " byte", (v << 24) >> 24, S.b); eq(w + " char", v & 0xffff, S.c); eq(w + " short", (v << 16) >> 16, S.s); eq(w + " int", v, S.i); eq(w + " long", l, S.l);
    eq(w + " boolean", v & 1, S.z ? 1 : 0); eq(w + " float", v & 0x7f7fffff, Float.floatToRawIntBits(S.f)); eq(w + " double", l & 0x7fefffffffffffffL, Double.doubleToRawLongBits(S.d)); if (S.o != o) bad(w + " object");
    eq(w + " vbyte", (v << 24) >> 24, S.vb); eq(w + " vchar", v & 0xffff, S.vc); eq(w + " vshort", (v << 16) >> 16, S.vs); eq(w + " vint", v, S.vi); eq(w + " vlong", l, S.vl);
    eq(w + " vboolean", v & 1, S.vz ? 1 : 0); eq(w + " vfloat", v & 0x7f7fffff, Float.floatToRawIntBits(S.vf)); eq(w + " vdouble", l & 0x7fefffffffffffffL, Double.doubleToRawLongBits(S.vd)); if (S.vo != o) bad(w + " vobject");
    eq(w + " pad", 0, S.pad0); eq(w + " pad", 0, S.pad1);
  }
  static void fields() { if (hidden) return;
    F x = new F();
    for (int k = 0; k < VI.length; ++k) {
      int v = VI[k]; long l = VL[k % VL.length]; Object o = k % 3 == 0 ? null : new Object();
      x.b = (byte) v; x.c = (char) v; x.s = (short) v; x.i = v; x.l = l; x.z = (v & 1) != 0; x.f = Float.intBitsToFloat(v & 0x7f7fffff); x.d = Double.longBitsToDouble(l & 0x7fefffffffffffffL); x.o = o;
      x.vb = (byte) v; x.vc = (char) v; x.vs = (short) v; x.vi = v; x.vl = l; x.vz = (v & 1) != 0; x.vf = Float.intBitsToFloat(v & 0x7f7fffff); x.vd = Double.longBitsToDouble(l & 0x7fefffffffffffffL); x.vo = o;
      check("field " + v, x, v, l, o);
      S.b = (byte) v; S.c = (char) v; S.s = (short) v; S.i = v; S.l = l; S.z = (v & 1) != 0; S.f = Float.intBitsToFloat(v & 0x7f7fffff); S.d = Double.longBitsToDouble(l & 0x7fefffffffffffffL); S.o = o;
      S.vb = (byte) v; S.vc = (char) v; S.vs = (short) v; S.vi = v; S.vl = l; S.vz = (v & 1) != 0; S.vf = Float.intBitsToFloat(v & 0x7f7fffff); S.vd = Double.longBitsToDouble(l & 0x7fefffffffffffffL); S.vo = o;
      checkS("static " + v, v, l, o);
    }
    F n = null;
    for (int k = 0; k < 36; ++k) {
      try {
        switch (k) {
          case 0: n.b = 1; break; case 1: n.c = 1; break; case 2: n.s = 1; break; case 3: n.i = 1; break; case 4: n.l = 1; break; case 5: n.z = true; break; case 6: n.f = 1; break; case 7: n.d = 1; break; case 8: n.o = "x"; break;
          case 9: next += n.b; break; case 10: next += n.c; break; case 11: next += n.s; break; case 12: next += n.i; break; case 13: next += n.l; break; case 14: if (n.z) ++next; break; case 15: next += n.f; break; case 16: next += n.d; break; case 17: if (n.o == null) ++next; break;
          case 18: n.vb = 1; break; case 19: n.vc = 1; break; case 20: n.vs = 1; break; case 21: n.vi = 1; break; case 22: n.vl = 1; break; case 23: n.vz = true; break; case 24: n.vf = 1; break; case 25: n.vd = 1; break; case 26: n.vo = "x"; break;
          case 27: next += n.vb; break; case 28: next += n.vc; break; case 29: next += n.vs; break; case 30: next += n.vi; break; case 31: next += n.vl; break; case 32: if (n.vz) ++next; break; case 33: next += n.vf; break; case 34: next += n.vd; break; case 35: if (n.vo == null) ++next; break;
        }
        bad("field access " + k + " on null did not throw");
      } catch (NullPointerException e) { } catch (Throwable e) { bad("field access on null threw " + cls(e)); }
    }
  }
  interface I1 { int m(int a); } static class B implements I1 { public int m(int a) { return a; } int v() { return 1; } private int p() { return 2; } int q() { return p(); } } static class C extends B { int v() { return super.v() + 1; } }
  static void types() { if (hidden) return;
    Object[] os = {null, new B(), new C(), "s", new int[1], new Object[1], new String[1], new B[1], new int[1][1]};
    for (int k = 0; k < os.length; ++k) {
      Object o = os[k];
      boolean eB = k == 1 || k == 2, eC = k == 2, eO = k > 0, eI = eB, eIA = k == 4, eOA = k == 5 || k == 6 || k == 7 || k == 8, eSA = k == 6;
      if ((o instanceof B) != eB || (o instanceof C) != eC || (o instanceof Object) != eO || (o instanceof I1) != eI || (o instanceof int[]) != eIA || (o instanceof Object[]) != eOA || (o instanceof String[]) != eSA) bad("instanceof " + k);
      boolean[] ex = {eB, eC, eI, eIA, eOA, eSA};
      for (int q = 0; q < ex.length; ++q) {
        boolean ok = k == 0 || ex[q];
        try {
          Object r = null;
          switch (q) { case 0: r = (B) o; break; case 1: r = (C) o; break; case 2: r = (I1) o; break; case 3: r = (int[]) o; break; case 4: r = (Object[]) o; break; case 5: r = (String[]) o; break; }
          if (!ok) bad("checkcast " + k + " to " + q + " did not throw");
          if (r != o) bad("checkcast changed the reference");
        } catch (ClassCastException e) { if (ok) bad("checkcast " + k + " to " + q + " threw"); } catch (Throwable e) { bad("checkcast threw " + cls(e)); }
      }
    }
    B b = null; I1 i = null; Object l = null; Throwable t = null; C c = new C();
    if (c.v() != 2) bad("invokespecial");
    if (new C() == c) bad("new returns distinct objects");
    for (int k = 0; k < 5; ++k) {
      try {
        switch (k) { case 0: b.v(); break; case 1: i.m(3); break; case 2: synchronized (l) { } break; case 3: throw (RuntimeException) t; case 4: b.q(); break; }
        bad("use of null " + k + " did not throw");
      } catch (NullPointerException e) { } catch (Throwable e) { bad("use of null " + k + " threw " + cls(e)); }
    }
    Object lock = new Object();
    synchronized (lock) { synchronized (lock) { } lock.notify(); }
    try { lock.notify(); bad("monitor still held"); } catch (IllegalMonitorStateException e) { }
    try { throw new IllegalStateException("x"); } catch (IllegalStateException e) { if (!"x".equals(e.getMessage())) bad("athrow message"); }
  }
  static void big() {
    int[] n = {1 << 30, Integer.MAX_VALUE, 1 << 29, (1 << 29) + 1, (1 << 28)};
    for (int k = 0; k < n.length; ++k) {
      try { long[] a = new long[n[k]]; a[n[k] - 1] = 1; a[n[k] / 2] = 1; } catch (OutOfMemoryError e) { }
      try { Object[] a = new Object[n[k]]; a[n[k] - 1] = "x"; a[n[k] / 2] = "x"; } catch (OutOfMemoryError e) { }
      if (n[k] > (1 << 29)) try { int[] a = new int[n[k]]; a[n[k] - 1] = 1; a[n[k] / 2] = 1; } catch (OutOfMemoryError e) { }
    }
  }
  static void gc() { if (hidden) return;
    Object[] a = new Object[1000]; F f = new F();
    for (int r = 0; r < 3; ++r) { System.gc(); for (int i = 0; i < a.length; ++i) a[i] = new int[] {i}; f.o = new int[] {77}; f.vo = new int[] {78}; S.o = new int[] {79}; for (int k = 0; k < 2000; ++k) next += new int[100].length; System.gc();
      for (int i = 0; i < a.length; ++i) eq("array element after collection", i, ((int[]) a[i])[0]);
      eq("field after collection", 77, ((int[]) f.o)[0]); eq("volatile field after collection", 78, ((int[]) f.vo)[0]); eq("static after collection", 79, ((int[]) S.o)[0]); }
  }
  static boolean hidden;
  // constants that name a class which cannot be found yet when the method is compiled
  interface HI { int hi(); }
  static class H implements HI { static int st = 5; int x = 3; H() { } H(int a) { x = a; } static int sm(int a, long b) { return a + (int) b; } public int hi() { return x; } final int fin() { return x * 2; } private int pr() { return x + 1; } static int callPr(H h) { return h.pr(); } static synchronized int ssync() { return 8; } synchronized int sync() { return 9; } }
  static class H2 extends H { public int hi() { return super.hi() + 100; } }
  static void lazy() {
    if (hidden) return;
    H h = new H(); H g = new H(12); H2 k = new H2();
    eq("field", 3, h.x); eq("field", 12, g.x); eq("static", 5, H.st); H.st = 6; eq("static", 6, H.st);
    eq("invokestatic", 17, H.sm(7, 10L)); eq("invokevirtual", 3, h.hi()); eq("invokevirtual", 103, k.hi()); eq("final", 24, g.fin()); eq("private", 13, H.callPr(g));
    HI i = k; eq("invokeinterface", 103, i.hi()); i = h; eq("invokeinterface", 3, i.hi()); eq("synchronized", 8, H.ssync()); eq("synchronized", 9, h.sync());
    if (h.getClass() != H.class || !H.class.getName().equals("HeapCases$H") || k.getClass() != H2.class) bad("class literal");
    H[] a = new H[3]; a[2] = k; if (a.length != 3 || a[0] != null || a[2] != k || a.getClass() != H[].class) bad("anewarray");
    H[][] b = new H[2][4]; if (b.length != 2 || b[1].length != 4 || b[1][3] != null || b.getClass() != H[][].class) bad("multianewarray");
    H2[][][] c = new H2[2][3][]; if (c.length != 2 || c[1].length != 3 || c[1][2] != null) bad("multianewarray");
    try { H[] z = new H[-1]; bad("anewarray -1"); } catch (NegativeArraySizeException e) { }
    try { H[][] z = new H[2][-1]; bad("multianewarray -1"); } catch (NegativeArraySizeException e) { }
    Object o = k; if (!(o instanceof H2) || !(o instanceof H) || !(o instanceof HI)) bad("instanceof"); o = h; if (o instanceof H2) bad("instanceof"); o = null; if (o instanceof H2) bad("instanceof null");
    try { o = h; k = (H2) o; bad("checkcast"); } catch (ClassCastException e) { } o = null; k = (H2) o; if (k != null) bad("checkcast null"); o = a; a = (H[]) o;
    H n = null; HI m = null;
    try { n.hi(); bad("invokevirtual null"); } catch (NullPointerException e) { }
    try { n.fin(); bad("final null"); } catch (NullPointerException e) { }
    try { m.hi(); bad("invokeinterface null"); } catch (NullPointerException e) { }
    try { n.x = 4; bad("putfield null"); } catch (NullPointerException e) { }
    try { next += n.x; bad("getfield null"); } catch (NullPointerException e) { }
    synchronized (H.class) { H.class.notify(); }
    try { H.class.notify(); bad("class monitor still held"); } catch (IllegalMonitorStateException e) { }
    try { h.notify(); bad("monitor still held"); } catch (IllegalMonitorStateException e) { }
  }
  static void reveal() throws Exception {
    String[] n = new java.io.File("hidden").list();
    for (int i = 0; i < n.length; ++i) {
      java.io.InputStream in = new java.io.FileInputStream("hidden/" + n[i]); java.io.OutputStream out = new java.io.FileOutputStream(n[i]);
      byte[] b = new byte[65536]; int c; while ((c = in.read(b)) > 0) out.write(b, 0, c); in.close(); out.close();
    }
  }
  public static void main(String[] s) throws Exception {
    if (s.length > 0) { hidden = true; fields(); types(); lazy(); check(null, null, 0, 0, null); checkS(null, 0, 0, null); gc(); hidden = false; reveal(); }
    fields(); types(); lazy(); arrays(); multi(); gc(); big();
    System.out.println("DONE");
  }
}
