// Member resolution errors: compiled against the LinkW below, run against specs/java/alt.
public class LinkCases {
  static boolean hidden;
  static int[] sink = new int[1];
  static int c0() { if (hidden) return 0; return LinkW.s(); }
  static int c1() { if (hidden) return 0; return LinkW.mk().i(); }
  static int c2() { if (hidden) return 0; return LinkW.mk().m(); }
  static int c3() { if (hidden) return 0; return LinkW.m2(); }
  static int c4() { if (hidden) return 0; return LinkW.sf; }
  static int c5() { if (hidden) return 0; return LinkW.mk().inf; }
  static int c6() { if (hidden) return 0; return LinkW.mk().nf; }
  static int c7() { if (hidden) return 0; return LinkW.nsf; }
  static int c8() { if (hidden) return 0; return LinkW.mk().keep(); }
  static int c9() { if (hidden) return 0; LinkI i = LinkW.mk(); return i.keep(); }
  static int c10() { if (hidden) return 0; LinkI i = LinkW.mk(); return i.gone(); }
  static int c11() { if (hidden) return 0; LinkW.sf = 3; return 0; }
  static int c12() { if (hidden) return 0; LinkW.mk().inf = 3; return 0; }
  static int c13() { if (hidden) return 0; LinkW.mk().nf = 3; return 0; }
  static int c14() { if (hidden) return 0; return LinkW.mk().a(); }
  static int run(int k) {
    switch (k) { case 0: return c0(); case 1: return c1(); case 2: return c2(); case 3: return c3(); case 4: return c4(); case 5: return c5(); case 6: return c6(); case 7: return c7(); case 8: return c8(); case 9: return c9(); case 10: return c10(); case 11: return c11(); case 12: return c12(); case 13: return c13(); default: return c14(); }
  }
  static final String[] E = {"IncompatibleClassChangeError", "IncompatibleClassChangeError", "NoSuchMethodError", "NoSuchMethodError", "IncompatibleClassChangeError", "IncompatibleClassChangeError", "NoSuchFieldError", "NoSuchFieldError", "7", "7", "NoSuchMethodError", "IncompatibleClassChangeError", "IncompatibleClassChangeError", "NoSuchFieldError", "3"};
  static void reveal() throws Exception {
    String[] n = new java.io.File("hidden").list();
    for (int i = 0; i < n.length; ++i) {
      java.io.InputStream in = new java.io.FileInputStream("hidden/" + n[i]); java.io.OutputStream out = new java.io.FileOutputStream(n[i]);
      byte[] b = new byte[65536]; int c; while ((c = in.read(b)) > 0) out.write(b, 0, c); in.close(); out.close();
    }
  }
  public static void main(String[] s) throws Exception {
    if (s.length > 0) { hidden = true; for (int k = 0; k < E.length; ++k) run(k); hidden = false; reveal(); }
    for (int k = 0; k < E.length; ++k) {
      String g;
      try { g = "" + run(k); } catch (Throwable t) { g = t.getClass().getName(); }
      if (!g.endsWith(E[k])) System.out.println("BAD member resolution case " + k + ": expected " + E[k] + " got " + g);
    }
    System.out.println("DONE");
  }
}
class LinkW implements LinkI { public static int s() { return 1; } public int i() { return 2; } public int m() { return 3; } public static int m2() { return 3; } public static int sf; public int inf; public int nf; public static int nsf; public static LinkW mk() { return null; } public int keep() { return 0; } public int gone() { return 0; } public int a() { return 0; } }
interface LinkI { int keep(); int gone(); }
