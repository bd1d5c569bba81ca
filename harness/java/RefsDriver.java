import java.lang.ref.*;
import java.util.Iterator;
import java.util.Map;
import java.util.WeakHashMap;

/** Replays behaviours of Refs.tla. */
public class RefsDriver extends H {
  static final int MAX = 128;
  static class O {
    final int id; final int magic; final int era = epoch; Object a, b;
    O(int id) { this.id = id; this.magic = id * 31 + 7; }
  }
  static class Plain extends O {
    Plain(int id) { super(id); }
    protected void finalize() { log(this); }
  }
  static class Back extends O {
    Back(int id) { super(id); }
    protected void finalize() { synchronized (lock) { if (era == epoch) res[id] = this; log(this); } }
  }
  static class Thrower extends O {
    Thrower(int id) { super(id); }
    protected void finalize() throws Throwable { log(this); throw new RuntimeException("from a finalizer"); }
  }
  static class Sub extends Plain { Sub(int id) { super(id); } long more = 5; }

  static final Object lock = new Object();
  static Object[] res = new Object[MAX];
  static int[][] log = new int[MAX][];
  static int logged;
  static int epoch;

  static int id(Object o) {
    if (o == null) return 0;
    O x = (O) o;
    if (x.magic != x.id * 31 + 7) return -1;
    return x.id;
  }

  static void log(O o) {
    int x = id(o.a), y = id(o.b);
    synchronized (lock) { if (o.era != epoch) return; log[logged++] = new int[] { o.id, x, y, o.magic == o.id * 31 + 7 ? 0 : 1 }; lock.notifyAll(); }
  }

  static class W extends WeakReference { final int n; W(Object o, ReferenceQueue q, int n) { super(o, q); this.n = n; } }
  static class S extends SoftReference { final int n; S(Object o, ReferenceQueue q, int n) { super(o, q); this.n = n; } }
  static class P extends PhantomReference { final int n; P(Object o, ReferenceQueue q, int n) { super(o, q); this.n = n; } }
  static class W1 extends WeakReference { final int n; W1(Object o, int n) { super(o); this.n = n; } }
  static int num(Reference r) { return r instanceof W ? ((W) r).n : r instanceof S ? ((S) r).n : r instanceof P ? ((P) r).n : ((W1) r).n; }

  Object[] root;
  Reference[] slot;
  ReferenceQueue[] q;
  WeakHashMap wm;
  static boolean small;
  static Object sink;

  void begin(String[] h) {
    root = new Object[8]; slot = new Reference[8]; q = new ReferenceQueue[] { null, new ReferenceQueue(), new ReferenceQueue() };
    wm = new WeakHashMap();
    // objects left over from the previous behaviour must not be reported
    synchronized (lock) {
      ++epoch;
      for (int i = 0; i < MAX; ++i) { res[i] = null; log[i] = null; }
      logged = 0;
    }
  }

  Object make(int fin, int id) {
    switch (fin) {
    case 0: return new O(id);
    case 1: if ((id & 1) == 0) return new Plain(id); return new Sub(id);
    case 2: return new Back(id);
    default: return new Thrower(id);
    }
  }

  static void scrub(int d) { Object a = null, b = null, c = null, e = null; if (d > 0) scrub(d - 1); }

  // the finalizer of a sentinel tells when the finalizers of a collection have run
  static int sentinels, seen;
  static class Sentinel {
    final int n;
    Sentinel(int n) { this.n = n; }
    protected void finalize() { synchronized (lock) { if (n > seen) seen = n; lock.notifyAll(); } }
  }
  static void sentinel() { new Sentinel(++sentinels); }

  void collect(int expect) {
    for (int k = 0, after = 0; k < 8 && after < 2; ++k) {
      sentinel();
      scrub(4);
      System.gc();
      synchronized (lock) {
        long until = System.currentTimeMillis() + 1000;
        while (seen < sentinels && System.currentTimeMillis() < until) {
          try { lock.wait(500); } catch (InterruptedException e) { }
        }
        if (logged >= expect) ++after;
      }
    }
    wm.get(this);
  }

  String op(String[] a) throws Throwable {
    String o = a[0];
    if (o.equals("new")) { root[num(a[1])] = make(num(a[2]), num(a[3])); return "0"; }
    if (o.equals("link")) {
      O x = (O) root[num(a[1])];
      if (num(a[2]) == 1) x.a = root[num(a[3])]; else x.b = root[num(a[3])];
      return "0";
    }
    if (o.equals("load")) {
      O x = (O) root[num(a[1])];
      Object v = num(a[2]) == 1 ? x.a : x.b;
      root[num(a[3])] = v;
      return "" + id(v);
    }
    if (o.equals("drop")) { root[num(a[1])] = null; return "0"; }
    if (o.equals("takeres")) {
      int i = num(a[1]);
      Object x;
      synchronized (lock) { x = res[i]; res[i] = null; }
      root[num(a[2])] = x;
      return "" + id(x);
    }
    if (o.equals("newref")) {
      int k = num(a[1]), n = num(a[5]);
      Object t = root[num(a[3])];
      ReferenceQueue queue = q[num(a[4])];
      char c = a[2].charAt(0);
      slot[k] = c == 'w' ? (queue == null ? (Reference) new W1(t, n) : new W(t, queue, n)) : c == 's' ? (Reference) new S(t, queue, n) : new P(t, queue, n);
      return "0";
    }
    if (o.equals("dropref")) { slot[num(a[1])] = null; return "0"; }
    if (o.equals("get")) return "" + id(slot[num(a[1])].get());
    if (o.equals("clear")) { slot[num(a[1])].clear(); return "0"; }
    if (o.equals("enqueue")) return "" + slot[num(a[1])].enqueue();
    if (o.equals("drain")) {
      int[] m = nums(a[2]);
      int[] got = new int[64];
      int n = 0;
      Reference r;
      while ((r = q[num(a[1])].poll()) != null && n < 60) {
        int x = num(r);
        boolean skip = false;
        for (int i = 0; i < m.length; ++i) if (m[i] == x) { m[i] = -1; skip = true; }
        if (!skip) got[n++] = x;
      }
      sort(got, n);
      return list(got, n);
    }
    if (o.equals("wput")) { Object v = wm.put(root[num(a[1])], a[2]); return v == null ? "0" : (String) v; }
    if (o.equals("wget")) { Object v = wm.get(root[num(a[1])]); return v == null ? "0" : (String) v; }
    if (o.equals("wrem")) { Object v = wm.remove(root[num(a[1])]); return v == null ? "0" : (String) v; }
    if (o.equals("wsize")) return wm.isEmpty() != (wm.size() == 0) ? "isEmpty wrong" : "" + wm.size();
    if (o.equals("wkeys")) {
      int[][] es = new int[MAX][];
      int n = 0;
      for (Iterator it = wm.entrySet().iterator(); it.hasNext();) {
        Map.Entry e = (Map.Entry) it.next();
        int k = id(e.getKey());
        es[n++] = new int[] { k, num((String) e.getValue()) };
      }
      return pairs(es, n);
    }
    if (o.equals("age")) {
      for (int k = num(a[1]); k > 0; --k) {
        if (small) { sink = new byte[10]; sink = new int[3]; }
        else for (int i = 0; i < 4600; ++i) sink = new byte[1000];
      }
      sink = null;
      return "0";
    }
    if (o.equals("gc")) {
      collect(num(a[1]));
      int[][] l = new int[MAX][];
      int n;
      synchronized (lock) { n = logged; for (int i = 0; i < n; ++i) l[i] = log[i]; logged = 0; }
      for (int i = 0; i < n; ++i) if (l[i][3] != 0) return "damaged in finalizer";
      return pairs(l, n);
    }
    throw new Error(o);
  }

  static String pairs(int[][] es, int n) {
    for (int i = 1; i < n; ++i) {
      int[] v = es[i];
      int j = i - 1;
      while (j >= 0 && es[j][0] > v[0]) { es[j + 1] = es[j]; --j; }
      es[j + 1] = v;
    }
    StringBuilder sb = new StringBuilder("[");
    for (int i = 0; i < n; ++i) {
      if (i > 0) sb.append(",");
      int w = es[i].length == 4 ? 3 : es[i].length;
      sb.append(list(es[i], w));
    }
    return sb.append("]").toString();
  }

  public static void main(String[] args) throws Throwable {
    for (int i = 1; i < args.length; ++i) { if (args[i].equals("small")) small = true; else verbose = true; }
    run(args[0], new RefsDriver());
  }
}
