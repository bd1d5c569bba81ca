/** Replays behaviours of Monitor.tla: each command is given to one of the worker threads. */
public class MonitorDriver extends H {
  static class Data { Worker owner; int depth; int entries; }
  static class M2 {
    synchronized int in(Worker w, int m) { return w.inside(m); }
    synchronized void thrower(Worker w, int m) { if (w.inside(m) != 0) throw new Unwind(); }
  }
  static class M3 {
    static synchronized int in(Worker w, int m) { return w.inside(m); }
    static synchronized void thrower(Worker w, int m) { if (w.inside(m) != 0) throw new Unwind(); }
  }
  static class Unwind extends RuntimeException { }

  static final int OK = 0, ILLEGAL = 8, INTERRUPTED = 9, BAD = 7, OTHER = 6;
  Object[] mon;
  Data[] data;
  Worker[] worker; // by the names of the specification
  static volatile boolean dying;

  static class Worker extends Thread {
    final MonitorDriver d;
    volatile boolean busy;
    volatile int result;
    volatile String cmd;
    volatile int mon;
    volatile Worker target;
    boolean odd;
    Worker(MonitorDriver d) { this.d = d; setDaemon(true); }

    public void run() {
      try {
        while (loop() != -1) { }
      } catch (Throwable t) {
        if (verbose) t.printStackTrace();
        complete(OTHER);
      }
    }

    void complete(int r) { result = r; cmd = null; busy = false; }

    // returns 0: unlock, 1: leave by an exception, -1: finish
    int loop() {
      while (true) {
        String c;
        while ((c = cmd) == null) {
          if (dying) return -1;
          Thread.yield();
        }
        int m = mon;
        if (c.equals("unlock")) return 0;
        if (c.equals("throw")) return 1;
        if (c.equals("lock")) {
          int r = enter(m);
          if (r == -1) return -1;
          complete(r);
        } else complete(simple(c, m));
      }
    }

    int enter(int m) {
      odd = !odd;
      try {
        if (m == 1) {
          synchronized (d.mon[m]) { int r = inside(m); if (r == 1) throw new Unwind(); if (r != 0) return r; }
        } else if (odd) {
          if (m == 2) ((M2) d.mon[m]).thrower(this, m); else M3.thrower(this, m);
        } else {
          int r = m == 2 ? ((M2) d.mon[m]).in(this, m) : M3.in(this, m);
          if (r < 0) return r;
        }
      } catch (Unwind e) { }
      return dying ? -1 : OK;
    }

    int inside(int m) {
      Data x = d.data[m];
      int r = OK;
      if (x.owner != null && x.owner != this) r = BAD;
      x.owner = this; ++x.depth; ++x.entries;
      complete(r);
      int l = loop();
      if (x.owner != this) { result = BAD; }
      if (--x.depth == 0) x.owner = null;
      return l;
    }

    int simple(String c, int m) {
      Object o = d.mon[m];
      Data x = d.data[m];
      if (c.equals("wait") || c.equals("twait")) {
        boolean mine = x.owner == this;
        int depth = x.depth;
        int r = OK;
        if (mine) { x.owner = null; x.depth = 0; }
        try {
          if (c.equals("wait")) o.wait(); else o.wait(1);
        } catch (IllegalMonitorStateException e) { r = ILLEGAL; }
        catch (InterruptedException e) { r = INTERRUPTED; }
        if (mine) {
          if (x.owner != null) r = BAD;
          x.owner = this; x.depth = depth;
        }
        return r;
      }
      if (c.equals("notify")) { try { o.notify(); return OK; } catch (IllegalMonitorStateException e) { return ILLEGAL; } }
      if (c.equals("notifyAll")) { try { o.notifyAll(); return OK; } catch (IllegalMonitorStateException e) { return ILLEGAL; } }
      if (c.equals("holds")) return Thread.holdsLock(o) ? 1 : 0;
      if (c.equals("interrupt")) { target.interrupt(); return OK; }
      if (c.equals("isintr")) return target.isInterrupted() ? 1 : 0;
      if (c.equals("clearintr")) return Thread.interrupted() ? 1 : 0;
      if (c.equals("gc")) { System.gc(); return OK; }
      return OTHER;
    }
  }

  void begin(String[] h) {
    int n = num(h[1]);
    dying = false;
    mon = new Object[] { null, new Object(), new M2(), M3.class };
    data = new Data[] { null, new Data(), new Data(), new Data() };
    worker = new Worker[n + 1];
    outstanding = new boolean[n + 1];
    for (int i = 1; i <= n; ++i) { worker[i] = new Worker(this); worker[i].start(); }
  }

  static boolean waitFor(Worker w) {
    long until = System.currentTimeMillis() + 15000;
    while (w.busy && System.currentTimeMillis() < until) Thread.yield();
    return !w.busy;
  }

  boolean[] outstanding;

  String op(String[] a) throws Throwable {
    int t = num(a[1]), m = num(a[2]);
    int n = worker.length - 1;
    Worker w = worker[t];
    if (outstanding[t]) return "thread " + t + " is busy";
    boolean about = a[0].equals("interrupt") || a[0].equals("isintr");
    w.mon = about ? 0 : m;
    w.target = about ? worker[m] : null;
    w.busy = true;
    outstanding[t] = true;
    w.cmd = a[0];
    StringBuilder sb = new StringBuilder("[");
    for (int k = 3; k < a.length; ++k) {
      int c = a[k].indexOf(':');
      int x = num(a[k].substring(0, c));
      int[] cand = nums(a[k].substring(c + 1));
      long until = System.currentTimeMillis() + 15000;
      int who = 0;
      while (who == 0) {
        for (int i = 0; i < cand.length && who == 0; ++i) if (outstanding[cand[i]] && !worker[cand[i]].busy) who = cand[i];
        if (who == 0) {
          if (System.currentTimeMillis() > until) return sb.append(" nothing happens").toString();
          Thread.yield();
        }
      }
      // the threads that could have gone on are alike, so the names are swapped
      Worker swap = worker[who]; worker[who] = worker[x]; worker[x] = swap;
      outstanding[x] = false;
      if (k > 3) sb.append(",");
      sb.append("[").append(x).append(",").append(swap.result).append("]");
    }
    for (int i = 1; i <= n; ++i) if (outstanding[i] && !worker[i].busy) sb.append(" thread ").append(i).append(" goes on");
    return sb.append("]").toString();
  }

  // everybody unlocks everything, waiters are interrupted: all must come to an end
  void end() throws Throwable {
    dying = true;
    int n = worker.length - 1;
    long until = System.currentTimeMillis() + 15000;
    for (int i = 1; i <= n; ++i) {
      while (worker[i].isAlive()) {
        worker[i].interrupt();
        for (int j = i + 1; j <= n; ++j) worker[j].interrupt();
        for (int k = 0; k < 100 && worker[i].isAlive(); ++k) Thread.yield();
        if (System.currentTimeMillis() > until) { put("thread " + i + " never ends;"); return; }
      }
      outstanding[i] = false;
    }
    for (int m = 1; m <= 3; ++m) if (data[m].owner != null || data[m].depth != 0) put("monitor " + m + " still held;");
  }

  public static void main(String[] args) throws Throwable {
    verbose = args.length > 1;
    run(args[0], new MonitorDriver());
  }
}
