import java.util.IdentityHashMap;

/** Replays behaviours of Identity.tla. */
public class IdentityDriver extends H {
  static class O { int a; Object b; }
  static class C extends O implements Cloneable { public Object clone() throws CloneNotSupportedException { return super.clone(); } }
  static class F extends C { protected void finalize() { } }
  static class S extends C { int c, d; }

  Object[] slot;
  int[] first;
  boolean[] hashed;
  int[] ids;
  IdentityHashMap map;
  static boolean small;
  static Object sink;

  void begin(String[] h) {
    slot = new Object[8]; first = new int[256]; hashed = new boolean[256];
    map = new IdentityHashMap();
    literal(1); literal(2);
    sink = null;
    // an object with both a monitor and an interned value can take two collections
    System.gc(); System.gc();
  }

  static Object make(int k, int n) {
    switch (k) {
    case 0: return new O();
    case 1: return new C();
    case 2: return new F();
    case 3: return new S();
    case 4: return new byte[n];
    case 5: return new int[n];
    case 6: return new long[n];
    case 7: return new Object[n];
    case 8: return new char[n];
    case 10: return new byte[70000 + n];
    default: return new int[n][n];
    }
  }

  // the literals of contents 3 and up must not be held by the constant pool, so they are spelled out
  static char[] chars(int c) {
    switch (c) {
    case 1: return new char[] { 'l', 'i', 't', ' ', 'o', 'n', 'e' };
    case 2: return new char[0];
    case 3: return new char[] { 'A', 'a', 'B', 'B' };
    case 4: return new char[] { '\u1234', '\u00e9', 'x' };
    default: return new char[] { 'B', 'B', 'A', 'a' };
    }
  }

  static String literal(int c) { return c == 1 ? "lit one" : ""; }

  static String string(int c, int w) {
    char[] a = chars(c);
    switch (w) {
    case 0: return new String(a);
    case 1: { StringBuilder sb = new StringBuilder(); for (int i = 0; i < a.length; ++i) sb.append(a[i]); return new String(sb.toString()); }
    case 2: { char[] b = new char[a.length + 4]; for (int i = 0; i < a.length; ++i) b[i + 2] = a[i]; return new String(new String(b).substring(2, 2 + a.length)); }
    case 3: { if (c == 4) return new String(a); byte[] b = new byte[a.length]; for (int i = 0; i < a.length; ++i) b[i] = (byte) a[i]; return new String(b); }
    default: { char[] b = new char[a.length + 3]; for (int i = 0; i < a.length; ++i) b[i + 1] = a[i]; return new String(b, 1, a.length); }
    }
  }

  static void age(int n) {
    for (int k = n; k > 0; --k) {
      if (small) { sink = new byte[10]; sink = new int[3]; }
      else for (int i = 0; i < 4600; ++i) sink = new byte[1000];
    }
    sink = null;
  }

  static int get(Object o, int i) {
    if (o instanceof byte[]) return ((byte[]) o)[i];
    if (o instanceof int[]) return ((int[]) o)[i];
    if (o instanceof long[]) return (int) ((long[]) o)[i];
    if (o instanceof char[]) return ((char[]) o)[i];
    if (i == 0) return ((O) o).a;
    return i == 2 ? ((S) o).c : ((S) o).d;
  }
  static void set(Object o, int i, int v) {
    if (o instanceof byte[]) ((byte[]) o)[i] = (byte) v;
    else if (o instanceof int[]) ((int[]) o)[i] = v;
    else if (o instanceof long[]) ((long[]) o)[i] = v;
    else if (o instanceof char[]) ((char[]) o)[i] = (char) v;
    else if (i == 0) ((O) o).a = v;
    else if (i == 2) ((S) o).c = v;
    else ((S) o).d = v;
  }
  static int len(Object o) {
    if (o instanceof byte[]) return ((byte[]) o).length;
    if (o instanceof int[]) return ((int[]) o).length;
    if (o instanceof long[]) return ((long[]) o).length;
    if (o instanceof char[]) return ((char[]) o).length;
    if (o instanceof Object[]) return ((Object[]) o).length;
    return o instanceof S ? 4 : 2;
  }
  static boolean isRef(Object o, int i) { return o instanceof Object[] || (o instanceof O && i == 1); }
  static Object ref(Object o, int i) { return o instanceof Object[] ? ((Object[]) o)[i] : ((O) o).b; }

  static Object clone(Object o) throws CloneNotSupportedException {
    if (o instanceof C) return ((C) o).clone();
    if (o instanceof byte[]) return ((byte[]) o).clone();
    if (o instanceof int[]) return ((int[]) o).clone();
    if (o instanceof long[]) return ((long[]) o).clone();
    if (o instanceof char[]) return ((char[]) o).clone();
    if (o instanceof Object[]) return ((Object[]) o).clone();
    return new Plainly().clone();
  }
  static class Plainly { protected Object clone() throws CloneNotSupportedException { return super.clone(); } }

  String op(String[] a) throws Throwable {
    String o = a[0];
    Object x = a.length > 1 ? slot[num(a[1])] : null;
    if (o.equals("new")) { slot[num(a[1])] = make(num(a[2]), num(a[3])); return "0"; }
    if (o.equals("newstr")) { slot[num(a[1])] = string(num(a[2]), num(a[3])); return "0"; }
    if (o.equals("literal")) { slot[num(a[1])] = literal(num(a[2])); return "0"; }
    if (o.equals("intern")) { String s = ((String) x).intern(); slot[num(a[2])] = s; return "" + (s == x); }
    if (o.equals("streq")) {
      Object y = slot[num(a[2])];
      boolean e = x.equals(y);
      if (e && (x.hashCode() != y.hashCode() || ((String) x).compareTo((String) y) != 0)) return "equal strings differ";
      return "" + e;
    }
    if (o.equals("copy")) { slot[num(a[2])] = x; return "0"; }
    if (o.equals("drop")) { slot[num(a[1])] = null; return "0"; }
    if (o.equals("same")) { Object y = slot[num(a[2])]; return x == y ? "true" : x != y ? "false" : "neither"; }
    if (o.equals("hash")) {
      int id = num(a[2]);
      int h = System.identityHashCode(x);
      if (h < 0) return "negative";
      if (!(x instanceof String) && h != x.hashCode()) return "hashCode " + x.hashCode() + " is not the identity hash code " + h;
      if (hashed[id]) return first[id] == h ? "ok" : "was " + first[id] + " is " + h;
      hashed[id] = true; first[id] = h;
      return "ok";
    }
    if (o.equals("hold")) {
      boolean r;
      int g = num(a[3]);
      synchronized (x) {
        if (g == 1) age(1);
        if (g == 2) System.gc();
        x = slot[num(a[1])];
        r = Thread.holdsLock(slot[num(a[2])]);
        if (!Thread.holdsLock(x)) return "lost the monitor";
      }
      return Thread.holdsLock(x) ? "kept the monitor" : "" + r;
    }
    if (o.equals("setint")) { set(x, num(a[2]) - 1, num(a[3])); return "0"; }
    if (o.equals("setref")) {
      int i = num(a[2]) - 1;
      if (x instanceof Object[]) ((Object[]) x)[i] = slot[num(a[3])]; else ((O) x).b = slot[num(a[3])];
      return "0";
    }
    if (o.equals("loadref")) { slot[num(a[3])] = ref(x, num(a[2]) - 1); return "0"; }
    if (o.equals("read")) {
      int n = len(x);
      int[] r = new int[n];
      for (int i = 0; i < n; ++i) {
        if (isRef(x, i)) {
          Object y = ref(x, i);
          r[i] = y == null ? 0 : -1;
          for (int d = 7; y != null && d > 0; --d) if (slot[d] == y) r[i] = d;
        } else r[i] = get(x, i);
      }
      return list(r, n);
    }
    if (o.equals("clone")) {
      Object y = clone(x);
      slot[num(a[2])] = y;
      if (x == y) return "the same object";
      if (x.getClass() != y.getClass()) return "another class";
      if (x instanceof int[][]) { int[][] p = (int[][]) x, q = (int[][]) y; for (int i = 0; i < p.length; ++i) if (p[i] != q[i] || q.length != p.length) return "not shallow"; }
      if (!(x instanceof O) && len(x) != len(y)) return "another length";
      return "0";
    }
    if (o.equals("iput")) { Object v = map.put(x, new Integer(num(a[2]))); return v == null ? "0" : v.toString(); }
    if (o.equals("iget")) { Object v = map.get(x); if (map.containsKey(x) != (v != null)) return "containsKey"; return v == null ? "0" : v.toString(); }
    if (o.equals("irem")) { Object v = map.remove(x); return v == null ? "0" : v.toString(); }
    if (o.equals("isize")) return "" + map.size();
    if (o.equals("age")) { age(num(a[1])); return "0"; }
    if (o.equals("gc")) { x = null; System.gc(); System.gc(); return "0"; }
    throw new Error(o);
  }

  public static void main(String[] args) throws Throwable {
    for (int i = 1; i < args.length; ++i) { if (args[i].equals("small")) small = true; else verbose = true; }
    run(args[0], new IdentityDriver());
  }
}
