/** Support for generated programs (Unwind.tla): the log, locks held, exceptions of their own. */
package rt;
public class Rt {
  public static boolean T = true;
  static StringBuilder log = new StringBuilder();

  public static class E0 extends RuntimeException { public E0(String n) { super(n); } }
  public static class E1 extends E0 { public E1(String n) { super(n); } }
  public static class E2 extends E0 { public E2(String n) { super(n); } }
  public static class E3 extends E1 { public E3(String n) { super(n); } }
  public static class R0 extends Error { public R0(String n) { super(n); } }

  static String held(Object[] ms) {
    String r = "";
    for (int i = 0; i < ms.length; ++i) {
      boolean h = true;
      try { ms[i].notify(); } catch (IllegalMonitorStateException e) { h = false; }
      r = r + (h ? "1" : "0");
    }
    return r;
  }
  static String simple(Throwable e) {
    String n = e.getClass().getName();
    return n.substring(Math.max(n.lastIndexOf('.'), n.lastIndexOf('$')) + 1);
  }
  static String describe(Throwable e) {
    if (e instanceof java.lang.reflect.InvocationTargetException) return simple(e) + "<" + describe(e.getCause());
    if (e instanceof E0 || e instanceof R0) return simple(e) + "#" + e.getMessage();
    return simple(e);
  }
  static int id(StackTraceElement f) {
    String c = f.getClassName(), m = f.getMethodName();
    if (m.equals("<init>")) {
      int i = c.indexOf("$C_");
      return i < 0 ? -1 : Integer.parseInt(c.substring(i + 3)) % 1000;
    }
    int i = m.startsWith("m_") ? 2 : m.startsWith("pm_") || m.startsWith("im_") ? 3 : -1;
    return i < 0 ? -1 : Integer.parseInt(m.substring(i)) % 1000;
  }
  static String trace(Throwable e) {
    String r = "";
    StackTraceElement[] t = e.getStackTrace();
    for (int i = 0; i < t.length; ++i) {
      int k = id(t[i]);
      if (k >= 0) r = r + "." + k;
    }
    return r;
  }
  static void add(String s) { log.append(s).append(';'); }
  public static void log(int id, int a, long b, String s, Object[] ms) { add("L" + id + ":" + a + "," + b + "," + s + ":" + held(ms)); }
  public static void caught(int id, int j, Throwable e, int a, long b, String s, Object[] ms) {
    add("C" + id + "/" + j + ":" + describe(e) + ":" + trace(e) + ":" + a + "," + b + "," + s + ":" + held(ms));
  }
  public static void fin(int id) { add("F" + id); }
  public static int ret(int id, int v) { add("R" + id + "=" + v); return v; }
  public static void never(int id) { add("N" + id); }
  public static void args(int id, boolean ok) { if (! ok) add("A" + id); }
  public static void exit(Throwable e, int v, Object[] ms) { add("X" + (e == null ? "=" + v : ":" + describe(e)) + ":" + held(ms)); }
  public static String str(int x) { return "" + x; }

  public static Object call(Class c, String name, Object target, Object[] args) throws Throwable {
    java.lang.reflect.Method[] ms = c.getDeclaredMethods();
    for (int i = 0; i < ms.length; ++i) if (ms[i].getName().equals(name)) return ms[i].invoke(target, args);
    throw new Error("no " + name);
  }
  public static Object nul;
  public static int[] nulArray;
  public static int zero;
  public static long zeroL;
  public static int minus = -1;
  public static int[] three = new int[3];
  public static Object text = "text";
  public static Object[] texts = new String[2];
  public static int sink;

  public static void begin() { log = new StringBuilder(); }
  public static void end() throws Exception {
    String s = log.append('\n').toString();
    java.io.FileOutputStream out = new java.io.FileOutputStream(java.io.FileDescriptor.out);
    byte[] b = new byte[s.length()];
    for (int i = 0; i < b.length; ++i) b[i] = (byte) s.charAt(i);
    out.write(b, 0, b.length);
  }

  public interface Program { void run(int i) throws Throwable; }
  /** a file with behaviours: "package number", lines to skip, "." */
  public static void main(String[] args) throws Throwable {
    java.io.FileInputStream in = new java.io.FileInputStream(args[0]);
    StringBuilder line = new StringBuilder();
    byte[] b = new byte[65536];
    int n;
    boolean head = true;
    while ((n = in.read(b)) > 0)
      for (int i = 0; i < n; ++i)
        if (b[i] != '\n') line.append((char) (b[i] & 255));
        else {
          String s = line.toString();
          line = new StringBuilder();
          if (s.equals(".")) head = true;
          else if (head) {
            head = false;
            int k = s.indexOf(' ');
            Program p = (Program) Class.forName(s.substring(0, k) + ".G").newInstance();
            begin();
            p.run(Integer.parseInt(s.substring(k + 1)));
            end();
          }
        }
  }
}
