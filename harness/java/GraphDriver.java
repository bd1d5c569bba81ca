import java.lang.reflect.Field;

/** Replays behaviours of ObjGraph.tla: a graph of real objects, mutated through every kind of store. */
public class GraphDriver extends H {
  // ---- shapes -------------------------------------------------------------
  static class Obj implements Cloneable {
    int id; int v;
    Object copy() throws CloneNotSupportedException { return clone(); }
  }
  static class P extends Obj { Object r0; Object r1; }
  static class Q extends Obj { byte x = 7; Object r0; long l = 0x1122334455667788L; Object r1; short s = -3; Object r2; double d = 2.5; boolean z = true; }
  static class R extends Q { Object r3; char c = 'c'; int i = -9; Object r4; float f = 1.5f; }
  /*BIG*/

  static class Carrier extends RuntimeException {
    final Object o; int left; final int slot;
    Carrier(Object o, int left, int slot) { this.o = o; this.left = left; this.slot = slot; }
  }
  static class Tag { final int id; Tag(int id) { this.id = id; } }
  interface Holder { Object[] cell = new Object[1]; }
  static class StatA { static Object s1; static int pad = 5; static Object s2; }
  static class StatB { static long pad; static Object s3; }

  static Object make(char shape, int id) {
    switch (shape) {
    case 'P': { P p = new P(); p.id = id; return p; }
    case 'Q': { Q p = new Q(); p.id = id; return p; }
    case 'R': { R p = new R(); p.id = id; return p; }
    case 'B': { B p = new B(); p.id = id; return p; }
    case 'A': { Object[] a = new Object[8]; a[7] = new Tag(id); return a; }
    case 'M': { Object[] a = new Object[1000]; a[999] = new Tag(id); return a; }
    case 'L': { Object[] a = new Object[9999 + 8000]; a[9999] = new Tag(id); return a; }
    case 'I': { int[] a = new int[5]; for (int i = 0; i < 5; ++i) a[i] = id * (i + 1); return a; }
    case 'Y': { byte[] a = new byte[90001]; a[0] = (byte) id; a[45000] = (byte) (id * 3); a[90000] = (byte) (id * 5); return a; }
    }
    throw new Error("shape " + shape);
  }

  static int tagIndex(Object[] a) { return a.length == 8 ? 7 : a.length == 1000 ? 999 : 9999; }

  /** -1 if the object is damaged */
  static int id(Object o) {
    if (o == null) return 0;
    if (o instanceof Obj) {
      if (o instanceof Q) {
        Q q = (Q) o;
        if (q.x != 7 || q.l != 0x1122334455667788L || q.s != -3 || q.d != 2.5 || !q.z) return -1;
        if (o instanceof R) { R r = (R) o; if (r.c != 'c' || r.i != -9 || r.f != 1.5f) return -2; }
      }
      if (o instanceof B && !((B) o).ok()) return -3;
      return ((Obj) o).id;
    }
    if (o instanceof int[]) {
      int[] a = (int[]) o;
      if (a.length != 5) return -4;
      for (int i = 0; i < 5; ++i) if (a[i] != a[0] * (i + 1)) return -5;
      return a[0];
    }
    if (o instanceof byte[]) {
      byte[] a = (byte[]) o;
      if (a.length != 90001 || a[45000] != (byte) (a[0] * 3) || a[90000] != (byte) (a[0] * 5)) return -6;
      for (int i = 1; i < 90000; i += 997) if (a[i] != 0 && i != 45000) return -7;
      return a[0];
    }
    if (o instanceof Object[]) {
      Object[] a = (Object[]) o;
      Object t = a[tagIndex(a)];
      if (!(t instanceof Tag)) return -8;
      return ((Tag) t).id;
    }
    return -9;
  }

  static char shape(Object o) {
    if (o instanceof R) return 'R';
    if (o instanceof Q) return 'Q';
    if (o instanceof P) return 'P';
    if (o instanceof B) return 'B';
    if (o instanceof int[]) return 'I';
    if (o instanceof byte[]) return 'Y';
    int n = ((Object[]) o).length;
    return n == 8 ? 'A' : n == 1000 ? 'M' : 'L';
  }

  static Object getRef(Object o, int i) {
    if (o instanceof Object[]) return ((Object[]) o)[i];
    if (o instanceof P) return i == 0 ? ((P) o).r0 : ((P) o).r1;
    if (o instanceof Q) {
      switch (i) {
      case 0: return ((Q) o).r0;
      case 1: return ((Q) o).r1;
      case 2: return ((Q) o).r2;
      case 3: return ((R) o).r3;
      case 4: return ((R) o).r4;
      }
    }
    return ((B) o).get(i);
  }

  static final sun.misc.Unsafe unsafe = sun.misc.Unsafe.getUnsafe();

  static void setRef(Object o, int i, Object x, int how) throws Exception {
    if (o instanceof Object[]) {
      Object[] a = (Object[]) o;
      if (how == 4) { Object[] t = new Object[] { null, x, null }; System.arraycopy(t, 1, a, i, 1); }
      else if (how == 3) {
        long off = unsafe.arrayBaseOffset(Object[].class);
        Object old = a[i];
        if (!unsafe.compareAndSwapObject(a, off + (long) i * 8, old, x)) throw new Error("cas failed");
      } else if (how == 2) java.lang.reflect.Array.set(a, i, x);
      else a[i] = x;
      return;
    }
    if (how == 2) {
      Field f = field(o, i);
      f.set(o, x);
      return;
    }
    if (how == 3) {
      if (o instanceof P && i == 0) {
        Object old = ((P) o).r0;
        if (!unsafe.compareAndSwapObject(o, unsafe.objectFieldOffset(field(o, 0)), old, x)) throw new Error("cas failed");
      } else {
        long off = unsafe.objectFieldOffset(field(o, i));
        if ((i & 1) == 0) unsafe.putObjectVolatile(o, off, x);
        else if (!unsafe.compareAndSwapObject(o, off, getRef(o, i), x)) throw new Error("cas failed");
      }
      return;
    }
    if (o instanceof P) { if (i == 0) ((P) o).r0 = x; else ((P) o).r1 = x; return; }
    if (o instanceof Q) {
      switch (i) {
      case 0: ((Q) o).r0 = x; return;
      case 1: ((Q) o).r1 = x; return;
      case 2: ((Q) o).r2 = x; return;
      case 3: ((R) o).r3 = x; return;
      case 4: ((R) o).r4 = x; return;
      }
    }
    ((B) o).set(i, x);
  }

  static Field field(Object o, int i) throws Exception {
    Class c = o instanceof R && i < 3 ? Q.class : o.getClass();
    Field f = c.getDeclaredField("r" + i);
    f.setAccessible(true);
    return f;
  }

  static void putStatic(int s, Object x) {
    switch (s) {
    case 1: StatA.s1 = x; break;
    case 2: StatA.s2 = x; break;
    case 3: StatB.s3 = x; break;
    default: Holder.cell[0] = x;
    }
  }
  static Object getStatic(int s) {
    switch (s) {
    case 1: return StatA.s1;
    case 2: return StatA.s2;
    case 3: return StatB.s3;
    default: return Holder.cell[0];
    }
  }

  static Object cloneOf(Object o, int id) throws Exception {
    if (o instanceof Obj) {
      Obj c = (Obj) ((Obj) o).copy();
      c.id = id;
      return c;
    }
    if (o instanceof int[]) {
      int[] a = (int[]) ((int[]) o).clone();
      for (int i = 0; i < 5; ++i) a[i] = id * (i + 1);
      return a;
    }
    if (o instanceof byte[]) {
      byte[] a = (byte[]) ((byte[]) o).clone();
      a[0] = (byte) id; a[45000] = (byte) (id * 3); a[90000] = (byte) (id * 5);
      return a;
    }
    Object[] a = (Object[]) ((Object[]) o).clone();
    a[tagIndex(a)] = new Tag(id);
    return a;
  }

  static boolean small;
  static Object sink;
  static void collect(int w) {
    switch (w) {
    case 0: System.gc(); break;
    case 1:  // a minor collection: fill the allocation pool
      if (small) sink = new Object[20];
      else for (int i = 0; i < 5000; ++i) sink = new byte[1000];
      break;
    case 2: // fixed objects
      if (small) sink = new Object[20];
      else for (int i = 0; i < 45; ++i) sink = new Object[12000];
      break;
    case 3: System.gc(); System.gc(); break;
    case 4: for (int i = 0; i < 3; ++i) collect(1); break;
    case 5: sink = new int[30000]; sink = new Object[100]; break;
    }
    sink = null;
  }

  // ---- execution ------------------------------------------------------------
  static GraphDriver self;
  static Object lock = new Object();
  static int turn;          // thread that may run
  static String[] pending;  // its next operation
  static boolean over;
  static int T;
  static Throwable failure;

  /** the next operation for this thread, null at the end of the behaviour */
  static String[] nextOp(int me) {
    if (T == 1) {
      String[] l = line();
      return l[0].charAt(0) == '.' ? null : l;
    }
    synchronized (lock) {
      String[] l = line();
      if (l[0].charAt(0) == '.') { over = true; lock.notifyAll(); return null; }
      int t = num(l[0]);
      pending = l;
      if (t != me) {
        turn = t;
        lock.notifyAll();
        return await(me);
      }
      pending = null;
      return l;
    }
  }

  static String[] await(int me) {
    synchronized (lock) {
      while (!over && !(turn == me && pending != null)) {
        try { lock.wait(); } catch (InterruptedException e) { throw new Error(); }
      }
      if (over) return null;
      String[] l = pending;
      pending = null;
      return l;
    }
  }

  static class Over extends Error { }

  static void result(int x) { put("" + x); put(';'); }
  static void result(String s) { put(s); put(';'); }

  static Object call(int kind, int me, Object a, Object b, Object c) {
    switch (kind) {
    case 0: return Frames.f0(me, a, b, c);
    case 1: return Frames.f1(me, 11, a, 22L, b, 3.5, c, 4.5f);
    case 2: return new Frames().f2(c, me, b, a);
    case 3: return Frames.f3(me, new Object[] { a, b, c });
    case 4: return Frames.f4(me, a, b, c);
    default: return ((Frames.I) Frames.impl).f5(1L, a, 2L, b, 3L, c, 4L, me);
    }
  }

  /** operations that do not touch the frame structure; l is { a, b, c } in, and the changed local out */
  static int slot;
  static Object ret;

  static Object simple(String[] o, Object a, Object b, Object c) throws Exception {
    // returns the new value of local "slot", or leaves slot == 0
    slot = 0;
    String op = o[1];
    if (op.equals("new")) {
      int k = num(o[2]);
      Object x = make(o[3].charAt(0), num(o[4]));
      result(id(x));
      slot = k;
      return x;
    }
    if (op.equals("set")) {
      Object t = sel(num(o[2]), a, b, c);
      int j = num(o[4]);
      Object x = j == 4 ? null : sel(j, a, b, c);
      setRef(t, num(o[3]), x, num(o[5]));
      result(id(x));
      return null;
    }
    if (op.equals("get")) {
      Object x = getRef(sel(num(o[2]), a, b, c), num(o[3]));
      result(id(x));
      slot = num(o[4]);
      return x;
    }
    if (op.equals("mov")) {
      Object x = sel(num(o[2]), a, b, c);
      result(id(x));
      slot = num(o[3]);
      return x;
    }
    if (op.equals("drop")) { result(0); slot = num(o[2]); return null; }
    if (op.equals("puts")) {
      Object x = sel(num(o[2]), a, b, c);
      putStatic(num(o[3]), x);
      result(id(x));
      return null;
    }
    if (op.equals("gets")) {
      Object x = getStatic(num(o[2]));
      result(id(x));
      slot = num(o[3]);
      return x;
    }
    if (op.equals("setv")) {
      ((Obj) sel(num(o[2]), a, b, c)).v = num(o[3]);
      result(num(o[3]));
      return null;
    }
    if (op.equals("copy")) {
      System.arraycopy(sel(num(o[2]), a, b, c), num(o[3]), sel(num(o[4]), a, b, c), num(o[5]), num(o[6]));
      result(0);
      return null;
    }
    if (op.equals("fill")) {
      Object x = sel(num(o[5]), a, b, c);
      int n = num(o[4]);
      Object[] tmp = new Object[n];
      for (int i = 0; i < n; ++i) tmp[i] = x;
      System.arraycopy(tmp, 0, sel(num(o[2]), a, b, c), num(o[3]), n);
      result(id(x));
      return null;
    }
    if (op.equals("clone")) {
      Object x = cloneOf(sel(num(o[2]), a, b, c), num(o[4]));
      result(id(x));
      slot = num(o[3]);
      return x;
    }
    if (op.equals("gc")) { collect(num(o[2])); result(0); return null; }
    throw new Error(op);
  }

  static Object sel(int k, Object a, Object b, Object c) { return k == 1 ? a : k == 2 ? b : c; }

  // ---- dump -----------------------------------------------------------------
  static final int MAX = 64;
  static Object[] byId = new Object[MAX];
  static boolean[] done = new boolean[MAX];
  static String problem;
  static void visit(Object o) {
    if (o == null) return;
    int i = id(o);
    if (i <= 0 || i >= MAX) { if (problem == null) problem = "damaged object " + i; return; }
    if (byId[i] != null) {
      if (byId[i] != o && problem == null) problem = "two objects numbered " + i;
      return;
    }
    byId[i] = o;
    if (o instanceof Object[]) {
      Object[] a = (Object[]) o;
      int t = tagIndex(a);
      for (int j = 0; j < a.length; ++j) if (j != t && a[j] != null) visit(a[j]);
    } else if (o instanceof Obj) {
      int n = o instanceof P ? 2 : o instanceof R ? 5 : o instanceof Q ? 3 : 70;
      for (int j = 0; j < n; ++j) visit(getRef(o, j));
    }
  }

  static void locals(Object a, Object b, Object c) {
    put("[" + id(a) + "," + id(b) + "," + id(c) + "];");
  }

  static void dump(Object x, Object y, Object z) {
    problem = null;
    for (int i = 0; i < MAX; ++i) byId[i] = null;
    for (int i = 1; i <= 4; ++i) visit(getStatic(i));
    visit(x); visit(y); visit(z);
    if (problem != null) { put(problem); put(';'); return; }
    put('[');
    boolean first = true;
    for (int i = 0; i < MAX; ++i) {
      Object o = byId[i];
      if (o == null) continue;
      if (!first) put(',');
      first = false;
      put('['); put("" + i); put(','); put(shape(o)); put(','); put("" + (o instanceof Obj ? ((Obj) o).v : 0));
      if (o instanceof Object[]) {
        Object[] a = (Object[]) o;
        int t = tagIndex(a);
        for (int j = 0; j < a.length; ++j) if (j != t && a[j] != null) { put(','); put("" + j); put(','); put("" + id(a[j])); }
      } else if (o instanceof Obj) {
        int n = o instanceof P ? 2 : o instanceof R ? 5 : o instanceof Q ? 3 : 70;
        for (int j = 0; j < n; ++j) { Object q = getRef(o, j); if (q != null) { put(','); put("" + j); put(','); put("" + id(q)); } }
      }
      put(']');
    }
    put(']');
    for (int i = 0; i < MAX; ++i) byId[i] = null;
    put(';');
  }

  void begin(String[] h) throws Throwable { throw new Error(); }
  String op(String[] a) { throw new Error(); }

  static class Worker extends Thread {
    final int me;
    Worker(int me) { this.me = me; }
    public void run() {
      try {
        String[] l = await(me);
        if (l != null) { Frames.first[me] = l; Frames.f0(me, null, null, null); }
      } catch (Over e) {
      } catch (Throwable t) {
        synchronized (lock) { failure = t; over = true; lock.notifyAll(); }
      }
    }
  }

  public static void main(String[] args) throws Throwable {
    small = args.length > 1 && args[1].equals("small");
    java.io.FileInputStream f = new java.io.FileInputStream(args[0]);
    in = new byte[(int) new java.io.File(args[0]).length()];
    int n = 0;
    while (n < in.length) { int r = f.read(in, n, in.length - n); if (r <= 0) break; n += r; }
    stdout = new java.io.FileOutputStream(java.io.FileDescriptor.out);
    String[] l;
    while ((l = line()) != null) {
      T = num(l[0]);
      over = false; pending = null; turn = 0; failure = null;
      for (int i = 1; i <= 4; ++i) putStatic(i, null);
      if (T == 1) {
        try { Frames.f0(1, null, null, null); } catch (Over e) { }
          catch (Throwable t) { put(name(t)); put(';'); failure = t; }
      } else {
        Worker[] w = new Worker[T + 1];
        for (int i = 1; i <= T; ++i) { w[i] = new Worker(i); w[i].start(); }
        synchronized (lock) {
          String[] o = line();
          pending = o;
          turn = num(o[0]);
          lock.notifyAll();
        }
        for (int i = 1; i <= T; ++i) w[i].join();
        if (failure != null) { put(name(failure)); put(';'); }
      }
      if (failure != null) { // skip to the end of this behaviour
        if (args.length > 2) failure.printStackTrace();
        while (pos > 1 && !(in[pos - 2] == '.' && (pos < 3 || in[pos - 3] == '\n'))) {
          if (line() == null) break;
        }
      }
      put('\n');
      flush();
    }
  }
}
