package ci;
import java.io.*;
import java.util.*;

/** Threads and initializers which do what they are told (ClassInit.tla). */
public class Init {
  static class MyRuntime extends RuntimeException { }
  static class MyChecked extends Exception { }
  static class MyError extends Error { }

  static int[] vals;
  static volatile boolean stop;
  static Uses uses;

  /** the initializer of class c */
  public static int run(int c) {
    Thread t = Thread.currentThread();
    if (! (t instanceof Worker)) return -1;
    return ((Worker) t).initialize(c);
  }
  public static int val(int c) { return vals[c]; }

  static class Worker extends Thread {
    String command, report = "";
    final Object lock = new Object();

    void tell(String c) { synchronized (lock) { command = c; lock.notifyAll(); } }
    String next() {
      synchronized (lock) {
        boolean interrupted = false;  // the thread may not have seen its command yet
        while (command == null && ! stop)
          try { lock.wait(); } catch (InterruptedException e) { interrupted = true; }
        String c = stop ? "stop" : command;
        command = null;
        if (interrupted) Thread.currentThread().interrupt();
        return c;
      }
    }
    void report(String s) {
      s = s + ":" + (Thread.interrupted() ? 1 : 0);
      synchronized (lock) { report = report.length() == 0 ? s : report + "+" + s; lock.notifyAll(); }
    }
    String take(long ms) throws InterruptedException {
      synchronized (lock) {
        long end = System.currentTimeMillis() + ms, left;
        while (report.length() == 0 && (left = end - System.currentTimeMillis()) > 0) lock.wait(left);
        String r = report;
        report = "";
        return r;
      }
    }
    int initialize(int c) {
      report("i" + c);
      loop();
      vals[c] = c;
      return c;
    }
    void loop() {
      while (true) {
        String c = next();
        if (c.equals("stop") || c.equals("end")) return;
        if (c.equals("throw runtime")) throw new MyRuntime();
        if (c.equals("throw error")) throw new MyError();
        if (c.equals("throw checked")) Init.<RuntimeException>sneak(new MyChecked());
        String r;
        try { r = "o" + uses.use(Integer.parseInt(c)); } catch (Throwable e) { r = "x" + describe(e); }
        report(r);
      }
    }
    public void run() { loop(); }
  }
  static <E extends Throwable> void sneak(Throwable t) throws E { throw (E) t; }

  static String describe(Throwable e) {
    if (e == null) return "null";
    String n = e.getClass().getName();
    n = n.substring(Math.max(n.lastIndexOf('.'), n.lastIndexOf('$')) + 1);
    if (n.equals("MyRuntime")) n = "runtime";
    if (n.equals("MyChecked")) n = "checked";
    return e.getCause() == null || e.getCause() == e || e instanceof NoClassDefFoundError ? n : n + "<" + describe(e.getCause());
  }

  static class Loader extends ClassLoader {
    final String dir;
    Loader(String dir) { super(Init.class.getClassLoader()); this.dir = dir; }
    protected Class findClass(String name) throws ClassNotFoundException {
      try {
        FileInputStream in = new FileInputStream(dir + "/" + name.replace('.', '/') + ".class");
        byte[] b = new byte[65536];
        int n = 0, k;
        while ((k = in.read(b, n, b.length - n)) > 0) n += k;
        in.close();
        return defineClass(name, b, 0, n);
      } catch (IOException e) { throw new ClassNotFoundException(name); }
    }
  }

  public static void main(String[] args) throws Throwable {
    BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(args[0])));
    PrintStream out = System.out;
    String line;
    int failures = 0;
    while ((line = in.readLine()) != null) {
      vals = new int[10];
      stop = false;
      long patience = failures < 2 ? Integer.parseInt(args[2]) : 300;
      boolean stuck = false;
      uses = (Uses) new Loader(args[1]).loadClass(line + ".U").newInstance();
      Worker[] ws = new Worker[3];
      for (int i = 0; i < 3; ++i) { ws[i] = new Worker(); ws[i].setDaemon(true); ws[i].start(); }
      while (! (line = in.readLine()).equals(".")) {
        if (stuck) continue;
        String[] p = line.split(" ");
        int actor = 0;
        if (p[0].equals("gc")) System.gc();
        else {
          actor = Integer.parseInt(p[1]);
          if (p[0].equals("interrupt")) ws[actor - 1].interrupt();
          else ws[actor - 1].tell(p[2].replace('_', ' '));
        }
        String expected = p[p.length - 1], r = "";
        if (expected.indexOf("" + actor) < 0 && ! p[0].equals("gc")) Thread.sleep(4);
        for (int i = 1; i <= 3; ++i) {
          String s = ws[i - 1].take(expected.indexOf("" + i) >= 0 ? patience : 0);
          if (s.length() == 0 && expected.indexOf("" + i) >= 0) { s = "nothing"; patience = 50; stuck = true; ++failures; }
          r = r + (i == 1 ? "" : " ") + (s.length() == 0 ? "-" : s);
        }
        out.print(r + ";");
      }
      stop = true;
      for (int i = 0; i < 3; ++i) ws[i].tell("stop");
      for (int i = 0; i < 3; ++i) ws[i].join(patience == 50 ? 100 : 5000);
      out.println(ws[0].isAlive() || ws[1].isAlive() || ws[2].isAlive() ? "a thread does not end;" : "");
      out.flush();
    }
  }
}
