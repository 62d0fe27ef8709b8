public class JniCases {
  static int bad = 0;
  static void fail(String s) { if (bad++ < 60) System.out.println("BAD " + s); }

  static native byte[] utf(String s);              // GetStringUTFLength/GetStringUTFChars, null when the terminator is missing
  static native String utf16(String s);            // GetStringLength/GetStringChars/NewString
  static native String fromUtf(byte[] b);          // NewStringUTF of the bytes (a zero byte is appended)
  static native char[] region(String s, int start, int len);      // GetStringRegion; null: guard units overwritten
  static native byte[] utfRegion(String s, int start, int len);
  // result: 0 copied exactly, 1 exception raised and nothing written, 2 wrong
  static native int get(Object a, int type, int off, int len);
  static native int set(Object a, int type, int off, int len);
  static native int els(Object a, int type, int mode);            // Get/Release<Type>ArrayElements
  static native int critical(int[] a);
  static native String strCritical(String s);
  static native Object objGet(Object[] a, int i);
  static native void objSet(Object[] a, int i, Object v);
  static native int length(Object a);
  static native Object fresh(int type, int n, Object init);

  static byte[] enc(String s) {
    int n = 0;
    for (int i = 0; i < s.length(); ++i) { int c = s.charAt(i); n += c < 0x80 ? 1 : c < 0x800 ? 2 : 3; }
    byte[] r = new byte[n]; int j = 0;
    for (int i = 0; i < s.length(); ++i) {
      int c = s.charAt(i);
      if (c < 0x80) r[j++] = (byte) c;
      else if (c < 0x800) { r[j++] = (byte) (0xC0 | (c >> 6)); r[j++] = (byte) (0x80 | (c & 63)); }
      else { r[j++] = (byte) (0xE0 | (c >> 12)); r[j++] = (byte) (0x80 | ((c >> 6) & 63)); r[j++] = (byte) (0x80 | (c & 63)); }
    }
    return r;
  }
  static byte[] encMod(String s) {                  // class-file form: C0 80 for U+0000
    byte[] e = enc(s); int z = 0;
    for (int i = 0; i < e.length; ++i) if (e[i] == 0) ++z;
    byte[] r = new byte[e.length + z]; int j = 0;
    for (int i = 0; i < e.length; ++i) { if (e[i] == 0) { r[j++] = (byte) 0xC0; r[j++] = (byte) 0x80; } else r[j++] = e[i]; }
    return r;
  }
  static boolean eq(byte[] a, byte[] b) {
    if (a == null || b == null || a.length != b.length) return false;
    for (int i = 0; i < a.length; ++i) if (a[i] != b[i]) return false;
    return true;
  }
  static boolean same(String a, String b) {
    if (a == null || a.length() != b.length()) return false;
    for (int i = 0; i < a.length(); ++i) if (a.charAt(i) != b.charAt(i)) return false;
    return true;
  }
  static String show(String s) {
    String r = "";
    for (int i = 0; i < s.length() && i < 20; ++i) r += Integer.toHexString(s.charAt(i)) + " ";
    return r + "(" + s.length() + ")";
  }
  static char[] set = { 1, 'a', 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x7fff, 0x8000, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0 };
  static int seed = 12345;
  static int rnd(int n) { seed = seed * 1103515245 + 12345; return ((seed >>> 8) & 0xffffff) % n; }

  static void str(String s, boolean zeroFree) {
    if (zeroFree || true) {
      byte[] u = utf(s);
      if (!eq(u, enc(s))) fail("GetStringUTFChars of " + show(s));
    }
    if (!same(utf16(s), s)) fail("GetStringChars/NewString of " + show(s));
    byte[] m = encMod(s);
    if (!same(fromUtf(m), s)) fail("NewStringUTF of the modified UTF-8 form of " + show(s));
    int n = s.length();
    for (int a = 0; a <= n && a < 6; ++a)
      for (int l = 0; a + l <= n && l < 6; ++l) {
        char[] c = region(s, a, l);
        boolean ok = c != null && c.length == l;
        for (int i = 0; ok && i < l; ++i) ok = c[i] == s.charAt(a + i);
        if (!ok) fail("GetStringRegion " + a + "," + l + " of " + show(s) + (c == null ? " writes outside the region" : ""));
        if (!eq(utfRegion(s, a, l), enc(s.substring(a, a + l)))) fail("GetStringUTFRegion " + a + "," + l + " of " + show(s));
      }
  }
  static void strings() {
    str("", true); str(new String(new byte[0]), true); str("abc", true); str(new String(new byte[] { 97, 98, 99 }).substring(3), true);
    str("abc".substring(3), true); str("abcdef".substring(2, 4), true); str("\u00e9\u20acx".substring(1), true); str("\u00e9\u20acx".substring(3), true);
    for (int i = 0; i < set.length; ++i) {
      str(new String(new char[] { set[i] }), set[i] != 0);
      for (int j = 0; j < set.length; ++j) {
        str(new String(new char[] { set[i], set[j] }), set[i] != 0 && set[j] != 0);
        str(new String(new char[] { 'x', set[i], set[j], 'y' }), set[i] != 0 && set[j] != 0);
      }
    }
    for (int k = 0; k < 300; ++k) {
      char[] c = new char[rnd(60)];
      for (int i = 0; i < c.length; ++i) c[i] = rnd(3) == 0 ? (char) (1 + rnd(126)) : rnd(2) == 0 ? set[rnd(set.length)] : (char) rnd(65536);
      str(new String(c), false);
    }
  }
  static void sbounds(String s) {
    int n = s.length();
    int[] v = { -1, 0, 1, n - 1, n, n + 1, Integer.MAX_VALUE, Integer.MIN_VALUE, Integer.MAX_VALUE - 1 };
    for (int i = 0; i < v.length; ++i)
      for (int j = 0; j < v.length; ++j) {
        long a = v[i], l = v[j];
        boolean valid = a >= 0 && l >= 0 && a + l <= n;
        if (!valid) {
          char[] c = null; boolean thrown = false;
          try { c = region(s, v[i], v[j]); } catch (StringIndexOutOfBoundsException e) { thrown = true; }
          if (!thrown) fail("GetStringRegion " + v[i] + "," + v[j] + " of a string of " + n + " raises no exception");
          thrown = false;
          try { utfRegion(s, v[i], v[j]); } catch (StringIndexOutOfBoundsException e) { thrown = true; }
          if (!thrown) fail("GetStringUTFRegion " + v[i] + "," + v[j] + " of a string of " + n + " raises no exception");
        }
      }
  }
  static Object make(int type, int n) {
    switch (type) {
    case 0: { boolean[] a = new boolean[n]; for (int i = 0; i < n; ++i) a[i] = (i & 1) == 1; return a; }
    case 1: { byte[] a = new byte[n]; for (int i = 0; i < n; ++i) a[i] = (byte) (i * 37 + 5); return a; }
    case 2: { char[] a = new char[n]; for (int i = 0; i < n; ++i) a[i] = (char) (i * 37 + 5); return a; }
    case 3: { short[] a = new short[n]; for (int i = 0; i < n; ++i) a[i] = (short) (i * 37 + 5); return a; }
    case 4: { int[] a = new int[n]; for (int i = 0; i < n; ++i) a[i] = i * 37 + 5; return a; }
    case 5: { long[] a = new long[n]; for (int i = 0; i < n; ++i) a[i] = i * 37 + 5; return a; }
    case 6: { float[] a = new float[n]; for (int i = 0; i < n; ++i) a[i] = i * 37 + 5; return a; }
    default: { double[] a = new double[n]; for (int i = 0; i < n; ++i) a[i] = i * 37 + 5; return a; }
    }
  }
  static long at(Object a, int type, int i) {
    switch (type) {
    case 0: return ((boolean[]) a)[i] ? 1 : 0;
    case 1: return ((byte[]) a)[i];
    case 2: return ((char[]) a)[i];
    case 3: return ((short[]) a)[i];
    case 4: return ((int[]) a)[i];
    case 5: return ((long[]) a)[i];
    case 6: return (long) ((float[]) a)[i];
    default: return (long) ((double[]) a)[i];
    }
  }
  static String[] names = { "Boolean", "Byte", "Char", "Short", "Int", "Long", "Float", "Double" };
  static void arrays() {
    for (int type = 0; type < 8; ++type)
      for (int n = 0; n < 7; ++n) {
        int[] v = { -1, 0, 1, 2, n - 1, n, n + 1, Integer.MAX_VALUE, Integer.MIN_VALUE, 0x40000000, 0x7ffffffe };
        for (int i = 0; i < v.length; ++i)
          for (int j = 0; j < v.length; ++j) {
            int off = v[i], len = v[j];
            boolean valid = off >= 0 && len >= 0 && (long) off + len <= n;
            for (int w = 0; w < 2; ++w) {
              Object a = make(type, n);
              String what = (w == 0 ? "Get" : "Set") + names[type] + "ArrayRegion " + off + "," + len + " of an array of " + n;
              int r = -1;
              try { r = w == 0 ? get(a, type, off, len) : set(a, type, off, len); }
              catch (ArrayIndexOutOfBoundsException e) { r = 1; }
              catch (Throwable e) { r = 3; }
              if (r != (valid ? 0 : 1)) fail(what + (r == 0 ? " raises no exception" : r == 1 ? " raises an exception" : " copies the wrong elements (" + r + ")"));
              Object b = make(type, n);
              for (int k = 0; k < n; ++k) {
                long want = at(b, type, k);
                if (w == 1 && valid && k >= off && k < off + len) want = type == 0 ? ((k - off) & 1) ^ 1 : (type == 1 ? (byte) ((k - off) * 11 + 3) : (k - off) * 11 + 3);
                if (at(a, type, k) != want) fail(what + ": element " + k + " is " + at(a, type, k) + " instead of " + want);
              }
            }
          }
      }
  }
  static void elements() {
    for (int type = 0; type < 8; ++type)
      for (int n = 0; n < 20; n = n * 2 + 1)
        for (int mode = 0; mode < 3; ++mode) {
          Object a = make(type, n);
          String what = "Get/Release" + names[type] + "ArrayElements mode " + mode + " of an array of " + n;
          int r = els(a, type, mode);
          if (r != 0) fail(what + " (" + r + ")");
          for (int k = 0; k < n; ++k) {
            long want = mode == 2 ? at(make(type, n), type, k) : type == 0 ? (k & 1) ^ 1 : type == 1 ? (byte) (k * 11 + 3) : k * 11 + 3;
            if (at(a, type, k) != want) fail(what + ": element " + k + " is " + at(a, type, k) + " instead of " + want);
          }
          if (length(a) != n) fail("GetArrayLength " + n);
        }
    for (int type = 0; type < 9; ++type)
      for (int n = 0; n < 300; n = n * 2 + 1) {
        Object init = "x";
        Object a = fresh(type, n, init);
        if (type < 8) {
          if (a.getClass() != make(type, 0).getClass()) fail("New" + names[type] + "Array makes a " + a.getClass());
          if (length(a) != n) fail("New" + names[type] + "Array of " + n + " has length " + length(a));
          for (int k = 0; k < n; ++k) if (at(a, type, k) != 0) fail("New" + names[type] + "Array element " + k + " is not zero");
        } else {
          Object[] o = (Object[]) a;
          if (o.length != n) fail("NewObjectArray of " + n);
          for (int k = 0; k < n; ++k) if (o[k] != init) fail("NewObjectArray element " + k);
        }
      }
    String u = "ab\u20accd\u00e9\uffff";
    for (int i = 0; i <= u.length(); ++i)
      for (int j = i; j <= u.length(); ++j) {
        String x = u.substring(i, j);
        if (!same(strCritical(x), x)) fail("GetStringCritical of " + show(x));
        x = "plain".substring(i % 3, i % 3 + (j - i) % 3);
        if (!same(strCritical(x), x)) fail("GetStringCritical of " + show(x));
      }
    if (!same(strCritical(new String(new char[0])), "")) fail("GetStringCritical of an empty string");
    int[] c = (int[]) make(4, 9);
    if (critical(c) != 0) fail("GetPrimitiveArrayCritical");
    for (int k = 0; k < 9; ++k) if (c[k] != k * 11 + 3) fail("GetPrimitiveArrayCritical does not write element " + k);
    for (int n = 0; n < 6; ++n) {
      int[] v = { -1, 0, 1, 2, n - 1, n, n + 1, Integer.MAX_VALUE, Integer.MIN_VALUE, 0x10000000, 0x20000000 };
      for (int i = 0; i < v.length; ++i) {
        Object[] a = new Object[n];
        for (int k = 0; k < n; ++k) a[k] = "e" + k;
        Object[] b = new Object[n];
        for (int k = 0; k < n; ++k) b[k] = a[k];
        boolean valid = v[i] >= 0 && v[i] < n, thrown = false;
        Object r = null;
        try { r = objGet(a, v[i]); } catch (ArrayIndexOutOfBoundsException e) { thrown = true; }
        if (thrown == valid) fail("GetObjectArrayElement " + v[i] + " of an array of " + n + (valid ? " raises an exception" : " raises no exception"));
        if (valid && r != a[v[i]]) fail("GetObjectArrayElement " + v[i] + " of an array of " + n);
        thrown = false;
        Object nw = new Object();
        try { objSet(a, v[i], (i & 1) == 0 ? nw : null); } catch (ArrayIndexOutOfBoundsException e) { thrown = true; }
        if (thrown == valid) fail("SetObjectArrayElement " + v[i] + " of an array of " + n + (valid ? " raises an exception" : " raises no exception"));
        for (int k = 0; k < n; ++k) if (a[k] != (valid && k == v[i] ? ((i & 1) == 0 ? nw : null) : b[k])) fail("SetObjectArrayElement " + v[i] + " of an array of " + n + ": element " + k);
      }
    }
  }
  public static void main(String[] args) {
    System.load(args[0]);
    String mode = args.length > 1 ? args[1] : "all";
    if (mode.equals("strings") || mode.equals("all")) strings();
    if (mode.equals("regions") || mode.equals("all")) { sbounds("abc"); sbounds(""); sbounds("\u20acb\u00e9d"); arrays(); elements(); }
    System.out.println("DONE");
  }
}
