import java.util.concurrent.locks.LockSupport;

/** Replays behaviours of Threads.tla: each command is given to one of the running threads. */
public class ThreadsDriver extends H {
  static final int OK = 0, ILLEGAL = 8, INTERRUPTED = 9, BAD = 7, OTHER = 6, BADARG = 11;
  Worker[] w;
  volatile boolean delegate;
  volatile boolean dying;
  Group group;
  final ThreadLocal[] key = new ThreadLocal[4];

  static class Plain extends ThreadLocal { }
  static class First extends ThreadLocal { protected Object initialValue() { return Integer.valueOf(40); } }
  static class Inherited extends InheritableThreadLocal {
    protected Object childValue(Object v) { return v == null ? null : Integer.valueOf(((Integer) v).intValue() + 1); }
  }
  class Group extends ThreadGroup {
    Group() { super("workers"); }
    public void uncaughtException(Thread t, Throwable e) {
      if (delegate) super.uncaughtException(t, e); else handled(3, t, e);
    }
  }
  class Handler implements Thread.UncaughtExceptionHandler {
    final int id;
    Handler(int id) { this.id = id; }
    public void uncaughtException(Thread t, Throwable e) { handled(id, t, e); }
  }
  void handled(int id, Thread t, Throwable e) {
    Worker x = (Worker) t;
    if (Thread.currentThread() != t || e != x.thrown || !t.isAlive()) id = BAD;
    x.handlers++;
    x.complete(x.handlers == 1 ? id : BAD);
  }
  static class Mine extends RuntimeException { }

  class Worker extends Thread {
    volatile boolean busy, outstanding, entered;
    volatile int result, arg;
    volatile String cmd;
    volatile Worker target;
    volatile boolean permit;
    int runs, handlers, plain; // plain: written at the end, read after joining
    RuntimeException thrown;
    int seen;
    Worker() { super(group, "worker"); }
    void complete(int r) { result = r; cmd = null; busy = false; }
    public void run() {
      ++runs;
      entered = true;
      while (true) {
        String c;
        while ((c = cmd) == null) {
          if (dying) return;
          Thread.yield();
        }
        int r = OTHER;
        try {
          if (Thread.currentThread() != this) r = BAD;
          else if (c.equals("exit") || c.equals("die")) {
            plain = 12345;
            if (c.equals("die")) { thrown = new Mine(); throw thrown; }
            complete(OK);
            return;
          } else r = act(c);
        } catch (InterruptedException e) {
          r = isInterrupted() ? BAD : INTERRUPTED;
        } catch (IllegalThreadStateException e) { r = ILLEGAL; }
        catch (IllegalArgumentException e) { r = BADARG; }
        catch (Mine e) { throw e; }
        catch (RuntimeException e) { if (verbose) e.printStackTrace(); r = OTHER; }
        complete(r);
      }
    }
    int act(String c) throws InterruptedException {
      Worker u = target;
      int y = arg;
      if (c.equals("create")) { w[y] = new Worker(); return OK; }
      if (c.equals("start")) { u.start(); return OK; }
      if (c.equals("join")) {
        boolean was = u.isAlive();
        if (y == 0) u.join(); else if (y == 1) u.join(0); else if (y == 2) u.join(0, 0); else u.join(1);
        if (y < 3 && u.isAlive()) return BAD;
        if (y < 3 && was && (u.plain != 12345 && !dying)) return BAD;
        return OK;
      }
      if (c.equals("sleep")) { Thread.sleep(1000000); return BAD; }
      if (c.equals("nap")) {
        long then = System.nanoTime();
        if (y == 0) Thread.sleep(1); else if (y == 1) Thread.sleep(2); else Thread.sleep(0, 1);
        return OK;
      }
      if (c.equals("park")) {
        // a spurious return is allowed
        while (!permit && !isInterrupted() && !dying) LockSupport.park();
        permit = false;
        return OK;
      }
      if (c.equals("unpark")) { u.permit = true; LockSupport.unpark(u); return OK; }
      if (c.equals("interrupt")) { u.interrupt(); return OK; }
      if (c.equals("isintr")) return u.isInterrupted() ? 1 : 0;
      if (c.equals("clearintr")) return Thread.interrupted() ? 1 : 0;
      if (c.equals("alive")) return u.isAlive() ? 1 : 0;
      if (c.equals("state")) { Thread.State s = u.getState(); return s == Thread.State.NEW ? 0 : s == Thread.State.TERMINATED ? 2 : 1; }
      if (c.equals("trace")) {
        // the trace of another running thread may be empty (it is in the interpreter)
        boolean some = u.getStackTrace().length > 0;
        return u == this || u.getState() == Thread.State.NEW ? (some ? 1 : 0) : 1;
      }
      if (c.equals("daemon")) return u.isDaemon() ? 1 : 0;
      if (c.equals("setdaemon")) { u.setDaemon(y != 0); return OK; }
      if (c.equals("prio")) return u.getPriority();
      if (c.equals("setprio")) { u.setPriority(y); return OK; }
      if (c.equals("hand")) { u.setUncaughtExceptionHandler(y == 0 ? null : new Handler(y)); return OK; }
      if (c.equals("deleg")) { delegate = y != 0; return OK; }
      if (c.equals("runs")) return u.runs;
      if (c.equals("set")) { key[seen].set(y == -1 ? null : Integer.valueOf(y)); return OK; }
      if (c.equals("get")) { Object o = key[seen].get(); return o == null ? -1 : ((Integer) o).intValue(); }
      if (c.equals("gc")) { System.gc(); return OK; }
      return OTHER;
    }
  }

  void begin(String[] h) {
    int n = num(h[1]);
    dying = false;
    delegate = false;
    group = new Group();
    key[1] = new Plain(); key[2] = new First(); key[3] = new Inherited();
    Thread.setDefaultUncaughtExceptionHandler(new Handler(4));
    w = new Worker[n + 1];
    w[1] = new Worker();
    w[1].setDaemon(true);
    w[1].start();
  }

  static final int WAIT = 15000;

  String op(String[] a) throws Throwable {
    String c = a[0];
    int t = num(a[1]), x = num(a[2]), y = num(a[3]);
    Worker me = w[t];
    if (me.outstanding) return "thread " + t + " is busy";
    boolean local = c.equals("set") || c.equals("get");
    me.seen = local ? x : 0;
    me.target = local || x == 0 || c.equals("create") ? null : w[x];
    me.arg = c.equals("create") ? x : y;
    me.busy = true;
    me.outstanding = true;
    me.cmd = c;
    int[] who = nums(a[4]);
    StringBuilder sb = new StringBuilder("[");
    for (int k = 0; k < who.length; ++k) {
      Worker u = w[who[k]];
      long until = System.currentTimeMillis() + WAIT;
      while (u.busy) {
        if (System.currentTimeMillis() > until) return sb.append(" nothing happens").toString();
        Thread.yield();
      }
      u.outstanding = false;
      if (c.equals("start") && u.result == OK) {
        // the body is entered in its own time
        while (!w[x].entered) {
          if (System.currentTimeMillis() > until) return sb.append(" does not run").toString();
          Thread.yield();
        }
      }
      if (k > 0) sb.append(",");
      sb.append("[").append(who[k]).append(",").append(u.result).append("]");
      if (k == 0 && (c.equals("exit") || c.equals("die"))) {
        while (u.isAlive()) {
          if (System.currentTimeMillis() > until) return sb.append(" stays alive").toString();
          Thread.yield();
        }
      }
    }
    for (int i = 1; i < w.length; ++i) if (w[i] != null && w[i].outstanding && !w[i].busy) sb.append(" thread ").append(i).append(" goes on");
    return sb.append("]").toString();
  }

  void end() throws Throwable {
    dying = true;
    long until = System.currentTimeMillis() + WAIT;
    for (int i = 1; i < w.length; ++i) {
      while (w[i] != null && w[i].isAlive()) {
        for (int j = i; j < w.length; ++j) if (w[j] != null && w[j].isAlive()) w[j].interrupt();
        for (int k = 0; k < 100 && w[i].isAlive(); ++k) Thread.yield();
        if (System.currentTimeMillis() > until) { put("thread " + i + " never ends;"); return; }
      }
    }
  }

  public static void main(String[] args) throws Throwable {
    verbose = args.length > 1;
    run(args[0], new ThreadsDriver());
  }
}
