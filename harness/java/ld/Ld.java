package ld;
import java.io.*;
import java.util.*;

/** Class loaders which do what Loaders.tla says. */
public class Ld {
  static String dir;
  static int[] supers;
  static Loader[] loaders;
  static HashMap<String, Class> known;

  static byte[] bytes(int c) throws IOException {
    FileInputStream in = new FileInputStream(dir + "/g" + supers[c] + "/K" + c + ".class");
    byte[] b = new byte[65536];
    int n = 0, k;
    while ((k = in.read(b, n, b.length - n)) > 0) n += k;
    in.close();
    byte[] r = new byte[n];
    System.arraycopy(b, 0, r, 0, n);
    return r;
  }

  static class Loader extends ClassLoader {
    final int index;
    final boolean first;
    final String[] files = new String[10];
    int cut = 7;
    Loader(int index, ClassLoader parent, boolean first) { super(parent); this.index = index; this.first = first; }
    protected Class loadClass(String name, boolean resolve) throws ClassNotFoundException {
      if (first || ! name.startsWith("K")) return super.loadClass(name, resolve);
      synchronized (this) {
        Class c = findLoadedClass(name);
        if (c == null) c = files[name.charAt(1) - '0'].equals("none") ? getParent().loadClass(name) : findClass(name);
        return c;
      }
    }
    protected Class findClass(String name) throws ClassNotFoundException {
      if (! name.startsWith("K")) throw new ClassNotFoundException(name);
      int c = name.charAt(1) - '0';
      String s = files[c];
      if (s.equals("none")) throw new ClassNotFoundException(name);
      if (s.equals("throws")) throw new IllegalStateException(name);
      return define(c, s);
    }
    Class define(int c, String s) {
      byte[] b;
      try { b = bytes(c); } catch (IOException e) { throw new Error(e.toString()); }
      if (s.equals("magic")) b[1] ^= 4;
      // the bytes lie somewhere in a larger array
      int at = c % 3;
      byte[] a = new byte[b.length + 3];
      System.arraycopy(b, 0, a, at, b.length);
      // which is seen first, the end of the file or that a superclass is missing, is open once the superclass is named
      int most = supers[c] == 0 ? b.length : poolEnd(b);
      return defineClass("K" + c, a, at, s.equals("truncated") ? 8 + (cut += 37) % (most - 9) : b.length);
    }
    static int u2(byte[] b, int i) { return (b[i] & 255) << 8 | (b[i + 1] & 255); }
    static int poolEnd(byte[] b) {
      int i = 10;
      for (int k = 1, n = u2(b, 8); k < n; ++k) {
        int tag = b[i];
        if (tag == 1) i += 3 + u2(b, i + 1);
        else if (tag == 7 || tag == 8 || tag == 16) i += 3;
        else if (tag == 15) i += 4;
        else if (tag == 5 || tag == 6) { i += 9; ++k; }
        else i += 5;
      }
      return i;
    }
    Class found(String name) { return findLoadedClass(name); }
  }

  /** The application's loader has classes of the same names, which no other loader may see. */
  static class Hide extends ClassLoader {
    Hide() { super(Ld.class.getClassLoader()); }
    protected Class loadClass(String name, boolean resolve) throws ClassNotFoundException {
      if (name.startsWith("K")) throw new ClassNotFoundException(name);
      return super.loadClass(name, resolve);
    }
  }
  static void useOwn(int n) throws Throwable {
    for (int c = 1; c <= n; ++c) {
      Probe p = (Probe) Class.forName("K" + c).newInstance();
      for (int how = 0; how < 6; ++how) for (int t = 1; t <= n; ++t) if (show(p.ref(how, t)).charAt(2) != '?') throw new Error("K" + t);
    }
  }

  static String show(Class c) {
    if (c == null) return "null";
    if (c == Object.class) return "Object";
    ClassLoader l = c.getClassLoader();
    String s = c.getName().substring(1) + "@" + (l instanceof Loader ? "" + ((Loader) l).index : "?");
    synchronized (known) {
      Class k = known.get(s);
      if (k == null) { known.put(s, c); k = c; }
      return k == c ? s : "another " + s;
    }
  }
  static String describe(Throwable e) {
    String n = e.getClass().getName();
    return n.substring(n.lastIndexOf('.') + 1);
  }

  static abstract class Op { abstract Class run() throws Throwable; }
  static String result(Op op) {
    try { return show(op.run()); } catch (Throwable e) { return describe(e); }
  }
  static String race(final Op... ops) throws Exception {
    final String[] r = new String[ops.length];
    final int[] waiting = { ops.length };
    Thread[] ts = new Thread[ops.length];
    for (int i = 0; i < ops.length; ++i) {
      final int k = i;
      ts[i] = new Thread() { public void run() {
        synchronized (waiting) {
          --waiting[0];
          waiting.notifyAll();
          while (waiting[0] > 0) try { waiting.wait(); } catch (InterruptedException e) { }
        }
        r[k] = result(ops[k]);
      } };
      ts[i].start();
    }
    String s = null;
    for (int i = 0; i < ops.length; ++i) {
      ts[i].join(20000);
      if (r[i] == null) { System.out.println("a thread does not return"); System.out.flush(); System.exit(3); }
      if (s == null) s = r[i]; else if (! s.equals(r[i])) s += " and " + r[i];
    }
    return s;
  }
  static Class known(int l, int c) {
    Class k = loaders[l].found("K" + c);
    show(k);
    return k;
  }
  static Object instance(int l, int c) throws Exception { return known(l, c).newInstance(); }

  static String run(final String[] p) throws Throwable {
    String op = p[0];
    if (op.equals("gc")) { System.gc(); return "ok"; }
    final int a = Integer.parseInt(p[1]), b = Integer.parseInt(p[2]);
    final Loader l = loaders[a];
    final String name = "K" + (p.length > 3 && op.startsWith("ref") ? p[3] : p[2]);
    if (op.equals("change")) { l.files[b] = p[3]; return "ok"; }
    if (op.equals("find")) return show(l.found(name));
    if (op.equals("super")) return show(known(a, b).getSuperclass());
    final Op load = new Op() { Class run() throws Throwable { return l.loadClass(name); } };
    final Op forName = new Op() { Class run() throws Throwable { return Class.forName(name, false, l); } };
    if (op.equals("load")) return result(load);
    if (op.equals("forName")) return result(forName);
    if (op.equals("array")) return result(new Op() { Class run() throws Throwable { return java.lang.reflect.Array.newInstance(l.loadClass(name), 1).getClass().getComponentType(); } });
    if (op.equals("race")) return race(load, forName, load, load);
    if (op.equals("define")) return result(new Op() { Class run() throws Throwable { return l.define(b, p[3]); } });
    if (op.equals("is")) {
      Object o = instance(a, b);
      Class q = known(Integer.parseInt(p[3]), Integer.parseInt(p[4]));
      boolean r = q.isInstance(o), s = q.isAssignableFrom(o.getClass()), t;
      Object[] array = (Object[]) java.lang.reflect.Array.newInstance(q, 1);
      try { array[0] = o; t = true; } catch (ArrayStoreException e) { t = false; }
      return r == s && s == t ? "" + r : r + " " + s + " " + t;
    }
    final Probe probe = (Probe) instance(a, b);
    final int how = Arrays.asList("refNew", "refLiteral", "refStatic", "refArray", "refArray2", "refRace").indexOf(op), target = Integer.parseInt(p[3]);
    Op ref = new Op() { Class run() throws Throwable { return probe.ref(how, target); } };
    return how == 5 ? race(ref, ref, ref) : result(ref);
  }

  public static void main(String[] args) throws Throwable {
    BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(args[0])));
    dir = args[1];
    known = new HashMap<String, Class>();
    useOwn(5);
    Hide hide = new Hide();
    String line;
    while ((line = in.readLine()) != null) {
      // parents, whether the parent is asked first, superclasses, files of each loader
      String[] h = line.split(" ");
      int n = h[0].length();
      known = new HashMap<String, Class>();
      loaders = new Loader[n + 1];
      supers = new int[h[2].length() + 1];
      for (int i = 1; i < supers.length; ++i) supers[i] = h[2].charAt(i - 1) - '0';
      for (int i = 1; i <= n; ++i) {
        int p = h[0].charAt(i - 1) - '0';
        loaders[i] = new Loader(i, p == 0 ? hide : loaders[p], h[1].charAt(i - 1) == '1');
        String[] f = h[2 + i].split(",");
        for (int c = 1; c < supers.length; ++c) loaders[i].files[c] = f[c - 1];
      }
      StringBuilder out = new StringBuilder();
      while (! (line = in.readLine()).equals(".")) {
        String r;
        try { r = run(line.split(" ")); } catch (Throwable e) { r = "?" + e; }
        out.append(r).append(';');
      }
      System.out.println(out);
      System.out.flush();
    }
  }
}
