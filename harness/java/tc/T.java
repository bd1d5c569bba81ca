package tc;
import java.io.*;

/** Support for the programs made from TailCalls.tla. */
public class T {
  public static class X extends RuntimeException { public final int v; public X(int v) { this.v = v; } }
  public interface Program { int run() throws Throwable; }

  public static final Object[] M = { new Object(), new Object(), new Object() };
  public static StringBuilder log = new StringBuilder();
  // the result of a void method
  public static int v;

  public static int d(int x) { return x; }
  public static int d(long x) { int v = (int) x; return x == v * 4294967297L ? v : -1000000; }
  public static int d(double x) { int v = (int) x; return x == v + 0.5 ? v : -1000000; }
  public static int d(float x) { int v = (int) x; return x == v + 0.25f ? v : -1000000; }
  public static int d(String x) { return x.charAt(0) == 's' ? Integer.parseInt(x.substring(1)) : -1000000; }
  public static int I(int v) { return v; }
  public static long J(int v) { return v * 4294967297L; }
  public static double D(int v) { return v + 0.5; }
  public static float F(int v) { return v + 0.25f; }
  public static String L(int v) { return "s" + v; }
  public static int h(int h, int x) { return (h * 31 + x) % 10007; }

  public static void enter(int m, int n) { log.append("e" + m + "/" + n + ";"); }
  public static void base(int m, Object... locks) {
    int n = 0;
    log.append("b" + m + ";");
  }
  public static void note(String k, int m, int n) { log.append(k + m + "/" + n + ";"); }

  public static void main(String[] args) throws Throwable {
    BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(args[0])));
    String line;
    while ((line = in.readLine()) != null) {
      log = new StringBuilder();
      Program p = (Program) Class.forName(line + ".P").newInstance();
      String r;
      try { r = "ret " + p.run(); }
      catch (X e) { r = "exc " + e.v; }
      catch (Throwable e) { r = e.getClass().getName(); }
      for (Object m : M) if (Thread.holdsLock(m)) r += " a lock is still held";
      for (String n : new String[] { ".P", ".L" })
        if (Thread.holdsLock(Class.forName(line + n))) r += " a lock is still held";
      java.lang.reflect.Field f = p.getClass().getField("it");
      if (Thread.holdsLock(f.get(null))) r += " a lock is still held";
      while (! in.readLine().equals(".")) ;
      System.out.println(log + r + ";");
    }
  }
}
