/** Line-oriented replay harness; uses as little of the class library as it can. */
abstract class H {
  static byte[] in;
  static int pos;
  static byte[] out = new byte[1 << 16];
  static int outLen;
  static java.io.FileOutputStream stdout;

  static String[] line() {
    if (pos >= in.length) return null;
    int n = 1;
    int end = pos;
    while (end < in.length && in[end] != '\n') { if (in[end] == ' ') ++n; ++end; }
    String[] r = new String[n];
    int k = 0;
    int start = pos;
    for (int i = pos; i <= end; ++i) {
      if (i == end || in[i] == ' ') {
        char[] c = new char[i - start];
        for (int j = 0; j < c.length; ++j) c[j] = (char) (in[start + j] & 0xff);
        r[k++] = new String(c);
        start = i + 1;
      }
    }
    pos = end + 1;
    return r;
  }

  static int num(String s) {
    int v = 0, i = 0;
    boolean neg = s.charAt(0) == '-';
    if (neg) i = 1;
    for (; i < s.length(); ++i) v = v * 10 + (s.charAt(i) - '0');
    return neg ? -v : v;
  }

  /** "[1,2,3]" or "[]" */
  static int[] nums(String s) {
    if (s.length() <= 2) return new int[0];
    int n = 1;
    for (int i = 0; i < s.length(); ++i) if (s.charAt(i) == ',') ++n;
    int[] r = new int[n];
    int k = 0, v = 0;
    boolean neg = false;
    for (int i = 1; i < s.length(); ++i) {
      char c = s.charAt(i);
      if (c == ',' || c == ']') { r[k++] = neg ? -v : v; v = 0; neg = false; }
      else if (c == '-') neg = true;
      else v = v * 10 + (c - '0');
    }
    return r;
  }

  static void flush() throws java.io.IOException {
    stdout.write(out, 0, outLen);
    outLen = 0;
  }

  static void put(char c) {
    if (outLen == out.length) {
      byte[] n = new byte[out.length * 2];
      for (int i = 0; i < outLen; ++i) n[i] = out[i];
      out = n;
    }
    out[outLen++] = (byte) c;
  }

  static void put(String s) {
    for (int i = 0; i < s.length(); ++i) put(s.charAt(i));
  }

  static String list(int[] a, int n) {
    char[] b = new char[n * 12 + 2];
    int p = 0;
    b[p++] = '[';
    for (int i = 0; i < n; ++i) {
      if (i > 0) b[p++] = ',';
      int v = a[i];
      if (v < 0) { b[p++] = '-'; v = -v; }
      int q = p;
      do { b[p++] = (char) ('0' + v % 10); v /= 10; } while (v > 0);
      for (int x = q, y = p - 1; x < y; ++x, --y) { char t = b[x]; b[x] = b[y]; b[y] = t; }
    }
    b[p++] = ']';
    return new String(b, 0, p);
  }

  static void sort(int[] a, int n) {
    for (int i = 1; i < n; ++i) {
      int v = a[i], j = i - 1;
      while (j >= 0 && a[j] > v) { a[j + 1] = a[j]; --j; }
      a[j + 1] = v;
    }
  }

  abstract void begin(String[] header) throws Throwable;
  abstract String op(String[] a) throws Throwable;
  void end() throws Throwable { }

  static String name(Throwable t) {
    String n = t.getClass().getName();
    int i = n.length();
    while (i > 0 && n.charAt(i - 1) != '.' && n.charAt(i - 1) != '$') --i;
    char[] c = new char[n.length() - i];
    for (int j = 0; j < c.length; ++j) c[j] = n.charAt(i + j);
    return "!" + new String(c);
  }

  static boolean verbose = false;

  static void run(String file, H h) throws Throwable {
    java.io.FileInputStream f = new java.io.FileInputStream(file);
    byte[] b = new byte[1 << 16];
    int n = 0;
    while (true) {
      if (n == b.length) {
        byte[] c = new byte[b.length * 2];
        for (int i = 0; i < n; ++i) c[i] = b[i];
        b = c;
      }
      int r = f.read(b, n, b.length - n);
      if (r <= 0) break;
      n += r;
    }
    in = new byte[n];
    for (int i = 0; i < n; ++i) in[i] = b[i];
    stdout = new java.io.FileOutputStream(java.io.FileDescriptor.out);
    String[] l;
    while ((l = line()) != null) {
      h.begin(l);
      while ((l = line()) != null && l[0].charAt(0) != '.') {
        String r;
        try {
          r = h.op(l);
        } catch (Throwable t) {
          r = name(t);
          if (verbose) t.printStackTrace();
        }
        put(r);
        put(';');
      }
      h.end();
      put('\n');
      flush();
    }
    flush();
  }
}
