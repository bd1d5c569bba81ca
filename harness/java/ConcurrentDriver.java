import java.util.ArrayList;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

/** Runs programs of Concurrent.tla on real threads and prints the calls and returns in order. */
public class ConcurrentDriver extends Thread {
  static final int Threads = 4;
  static String kind;
  static int par;
  static String[][][] prog = new String[Threads + 1][][];
  static volatile int round;
  static final AtomicInteger finished = new AtomicInteger();
  static final AtomicInteger stamp = new AtomicInteger();
  static final AtomicInteger ready = new AtomicInteger();
  /** event of each stamp: thread, op, and whether it is a return with which result */
  static int[] who = new int[128], what = new int[128], res = new int[128];
  static boolean[] ret = new boolean[128];

  static AtomicInteger ai; static AtomicLong al; static AtomicBoolean ab;
  static AtomicReference<Object> ar; static AtomicReferenceArray<Object> aa;
  static ConcurrentLinkedQueue<Integer> clq; static ConcurrentHashMap<Key, Integer> map; static LinkedBlockingQueue<Integer> lbq; static FutureTask<Integer> task;
  static final Object[] objs = new Object[20];

  static final int[] hashes = { 0, 0x7fffffff, -2000000000, 0x7fffffff, 0, 1500000000, -1 };
  static class Key {
    final int k;
    Key(int k) { this.k = k; }
    public int hashCode() { return hashes[k]; }
    public boolean equals(Object o) { return ((Key) o).k == k; }
  }

  final int id;
  int seed;
  ConcurrentDriver(int id) { this.id = id; seed = id * 7919; }

  static void reset() {
    ai = new AtomicInteger(); al = new AtomicLong(); ab = new AtomicBoolean(false);
    ar = new AtomicReference<Object>(objs[0]); aa = new AtomicReferenceArray<Object>(2);
    aa.set(0, objs[0]); aa.set(1, objs[0]);
    clq = new ConcurrentLinkedQueue<Integer>(); map = new ConcurrentHashMap<Key, Integer>();
    lbq = par == 100 ? new LinkedBlockingQueue<Integer>() : new LinkedBlockingQueue<Integer>(par == 0 ? 1 : par);
    final boolean fails = par == 1;
    task = new FutureTask<Integer>(new Callable<Integer>() {
      public Integer call() throws Exception {
        if (fails) throw new Exception();
        return 7;
      }
    });
    stamp.set(0); finished.set(0); ready.set(0);
  }

  static int b(boolean x) { return x ? 1 : 0; }
  static int i(Integer x) { return x == null ? -1 : x; }
  static int o(Object x) { for (int i = 0; i < objs.length; ++i) if (objs[i] == x) return i; return -99; }
  static int drain(int max) {
    ArrayList<Integer> l = new ArrayList<Integer>();
    if (max < 0) lbq.drainTo(l); else lbq.drainTo(l, max);
    int v = 0;
    for (int x : l) v = v * 10 + x;
    return v;
  }

  static int op(String[] p) throws Throwable {
    String o = p[0];
    int a = p.length > 1 ? H.num(p[1]) : 0, c = p.length > 2 ? H.num(p[2]) : 0, d = p.length > 3 ? H.num(p[3]) : 0;
    char k = o.charAt(0);
    if (kind.equals("int")) {
      if (o.equals("get")) return ai.get();
      if (o.equals("set")) { ai.set(a); return 1; }
      if (o.equals("gas")) return ai.getAndSet(a);
      if (o.equals("cas")) return b(ai.compareAndSet(a, c));
      if (o.equals("gaa")) return a == 1 ? ai.getAndIncrement() : a == -1 ? ai.getAndDecrement() : ai.getAndAdd(a);
      return a == 1 ? ai.incrementAndGet() : a == -1 ? ai.decrementAndGet() : ai.addAndGet(a);
    }
    if (kind.equals("long")) {
      if (o.equals("get")) return (int) al.get();
      if (o.equals("set")) { al.set(a); return 1; }
      if (o.equals("gas")) return (int) al.getAndSet(a);
      if (o.equals("cas")) return b(al.compareAndSet(a, c));
      if (o.equals("gaa")) return (int) (a == 1 ? al.getAndIncrement() : a == -1 ? al.getAndDecrement() : al.getAndAdd(a));
      return (int) (a == 1 ? al.incrementAndGet() : a == -1 ? al.decrementAndGet() : al.addAndGet(a));
    }
    if (kind.equals("bool")) {
      if (o.equals("get")) return b(ab.get());
      if (o.equals("set")) { ab.set(a == 1); return 1; }
      if (o.equals("gas")) return b(ab.getAndSet(a == 1));
      return b(ab.compareAndSet(a == 1, c == 1));
    }
    if (kind.equals("ref")) {
      if (o.equals("get")) return o(ar.get());
      if (o.equals("set")) { ar.set(objs[a]); return 1; }
      if (o.equals("gas")) return o(ar.getAndSet(objs[a]));
      return b(ar.compareAndSet(objs[a], objs[c]));
    }
    if (kind.equals("arr")) {
      int x = d - 1;
      if (o.equals("get")) return o(aa.get(x));
      if (o.equals("set")) { aa.set(x, objs[a]); return 1; }
      if (o.equals("gas")) return o(aa.getAndSet(x, objs[a]));
      return b(aa.compareAndSet(x, objs[a], objs[c]));
    }
    if (kind.equals("clq")) {
      if (o.equals("add")) return b((a & 1) == 0 ? clq.add(a) : clq.offer(a));
      return i(o.equals("poll") ? clq.poll() : clq.peek());
    }
    if (kind.equals("map")) {
      Key q = new Key(a);
      if (o.equals("put")) return i(map.put(q, c));
      if (o.equals("get")) return i(map.get(q));
      if (o.equals("has")) return b(map.containsKey(q));
      if (o.equals("pia")) return i(map.putIfAbsent(q, c));
      if (o.equals("rep")) return i(map.replace(q, c));
      if (o.equals("rep3")) return b(map.replace(q, c, d));
      if (o.equals("rem")) return i(map.remove(q));
      if (o.equals("rem2")) return b(map.remove(q, c));
      if (o.equals("size")) return map.size();
      if (o.equals("khas")) return b(map.keySet().contains(q));
      if (o.equals("kdel")) return b(map.keySet().remove(q));
      if (o.equals("vhas")) return b(map.containsValue(c));
      if (o.equals("snap")) {
        int[] vs = new int[7];
        int n = 0;
        for (java.util.Map.Entry<Key, Integer> e : map.entrySet()) vs[e.getKey().k] += e.getValue();
        for (int i = 1; i < 7; ++i) n = n * 10 + vs[i];
        return n;
      }
      map.clear();
      return 1;
    }
    if (kind.equals("task")) {
      if (o.equals("run")) { task.run(); return 1; }
      if (o.equals("cancel")) return b(task.cancel(true));
      if (o.equals("isDone")) return b(task.isDone());
      if (o.equals("isCancelled")) return b(task.isCancelled());
      try {
        return o.equals("get") ? task.get() : task.get(id() & 1, TimeUnit.MILLISECONDS);
      } catch (TimeoutException e) {
        return -2;
      } catch (ExecutionException e) {
        return -4;
      } catch (CancellationException e) {
        return -5;
      }
    }
    if (o.equals("offer")) return b(lbq.offer(a));
    if (o.equals("put")) { lbq.put(a); return 1; }
    if (o.equals("offerT")) return b(lbq.offer(a, 2, TimeUnit.MILLISECONDS));
    if (o.equals("offerL")) return b(lbq.offer(a, 30, TimeUnit.SECONDS));
    if (o.equals("poll")) return i(lbq.poll());
    if (o.equals("peek")) return i(lbq.peek());
    if (o.equals("take")) return i(lbq.take());
    if (o.equals("pollT")) return i(lbq.poll(2, TimeUnit.MILLISECONDS));
    if (o.equals("pollL")) return i(lbq.poll(30, TimeUnit.SECONDS));
    if (o.equals("size")) return lbq.size();
    if (o.equals("room")) return lbq.remainingCapacity();
    if (o.equals("has")) return b(lbq.contains(a));
    if (o.equals("del")) return b(lbq.remove((Object) Integer.valueOf(a)));
    if (o.equals("drain")) return drain(4);
    if (o.equals("clear")) { lbq.clear(); return 1; }
    if (o.equals("all")) {
      ArrayList<Integer> l = new ArrayList<Integer>();
      l.add(a);
      l.add(c);
      try {
        return b(lbq.addAll(l));
      } catch (IllegalStateException e) {
        return -3;
      }
    }
    while (lbq.remainingCapacity() > 0) Thread.yield();
    // let the producer find it full
    Thread.sleep(3);
    if (o.equals("clearFull")) lbq.clear();
    else if (o.equals("drain1Full")) drain(1);
    else if (o.equals("delFull")) lbq.remove(Integer.valueOf(3));
    else if (o.equals("pollFull")) lbq.poll();
    else drain(-1);
    return 1;
  }
  static int id() { return ((ConcurrentDriver) Thread.currentThread()).id; }

  void event(int k, boolean r, int v) {
    int s = stamp.getAndIncrement();
    who[s] = id; what[s] = k; ret[s] = r; res[s] = v;
  }

  public void run() {
    int last = 0;
    while (true) {
      int spin = 0;
      while (round == last) if (++spin > 200) Thread.yield();
      last = round;
      if (last < 0) return;
      String[][] p = prog[id];
      ready.incrementAndGet();
      while (ready.get() < Threads) ;
      for (int k = 0; k < p.length; ++k) {
        seed = seed * 1103515245 + 12345;
        int w = (seed >>> 16) & 127;
        if (w > 100) Thread.yield(); else for (int i = 0; i < w; ++i) sink += i;
        event(k, false, 0);
        int v;
        try {
          v = op(p[k]);
        } catch (Throwable t) {
          v = -100;
          failure = t;
        }
        event(k, true, v);
      }
      finished.incrementAndGet();
    }
  }
  static volatile int sink;
  static volatile Throwable failure;

  static String history() {
    StringBuilder s = new StringBuilder();
    int n = stamp.get();
    for (int i = 0; i < n; ++i) {
      if (i > 0) s.append(';');
      s.append(who[i]).append(' ').append(what[i]);
      if (ret[i]) s.append(' ').append(res[i]);
    }
    return s.toString();
  }

  public static void main(String[] a) throws Throwable {
    int repeats = Integer.parseInt(a[1]);
    for (int i = 0; i < objs.length; ++i) objs[i] = new Object();
    java.io.FileInputStream f = new java.io.FileInputStream(a[0]);
    byte[] in = new byte[1 << 20];
    int n = 0, r;
    while ((r = f.read(in, n, in.length - n)) > 0) n += r;
    H.in = new byte[n];
    System.arraycopy(in, 0, H.in, 0, n);
    ConcurrentDriver[] ts = new ConcurrentDriver[Threads + 1];
    for (int i = 1; i <= Threads; ++i) { ts[i] = new ConcurrentDriver(i); ts[i].setDaemon(true); ts[i].start(); }
    String[] l;
    while ((l = H.line()) != null) {
      kind = l[0];
      par = H.num(l[1]);
      for (int t = 1; t <= Threads; ++t) {
        l = H.line();
        String[] ops = l.length == 1 && l[0].equals("-") ? new String[0] : l;
        prog[t] = new String[ops.length][];
        for (int i = 0; i < ops.length; ++i) prog[t][i] = ops[i].split(",");
      }
      StringBuilder seen = new StringBuilder();
      for (int k = 0; k < repeats; ++k) {
        reset();
        failure = null;
        ++round;
        long end = System.currentTimeMillis() + 20000;
        int spin = 0;
        while (finished.get() < Threads) {
          if (++spin > 1000) Thread.sleep(1);
          if (System.currentTimeMillis() > end) {
            System.out.println(history() + "/HANG");
            System.out.flush();
            System.exit(3);
          }
        }
        if (failure != null) failure.printStackTrace();
        if (k > 0) seen.append('/');
        seen.append(history());
      }
      System.out.println(seen.toString());
    }
    System.out.flush();
    System.exit(0);
  }
}
