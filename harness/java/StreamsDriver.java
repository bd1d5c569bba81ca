import java.io.*;
import java.nio.ByteBuffer;
import java.nio.channels.FileChannel;
import java.util.zip.*;

/** Replays behaviours of Streams.tla on stacks of java.io streams. */
public class StreamsDriver extends H {
  static String dir;
  static int files;
  InputStream in;
  DataInputStream din;
  Reader rd;
  OutputStream out;
  ByteArrayOutputStream arr;
  Writer wr;
  StringWriter sw;
  Sink sink;
  String file;
  RandomAccessFile raf;
  int done;
  boolean inflating;   // available() is 1 until the end has been seen

  /** Hands out its bytes in chunks of given sizes. */
  static class Chunks extends InputStream {
    final byte[] d; final int[] sizes; final boolean av; int pos, k, left;
    Chunks(byte[] d, int[] sizes, boolean av) { this.d = d; this.sizes = sizes; this.av = av; next(); }
    void next() { if (left == 0) { left = sizes[k]; k = (k + 1) % sizes.length; } }
    public int read() {
      if (pos == d.length) return -1;
      next();
      --left;
      return d[pos++] & 255;
    }
    public int read(byte[] b, int o, int n) {
      if (n == 0) return 0;
      if (pos == d.length) return -1;
      next();
      if (n > left) n = left;
      if (n > d.length - pos) n = d.length - pos;
      for (int i = 0; i < n; ++i) b[o + i] = d[pos++];
      left -= n;
      return n;
    }
    public int available() { return av ? (left < d.length - pos ? left : d.length - pos) : 0; }
  }
  /** the same for characters */
  static class CharChunks extends Reader {
    final char[] d; final int[] sizes; int pos, k;
    CharChunks(char[] d, int[] sizes) { this.d = d; this.sizes = sizes; }
    public int read(char[] b, int o, int n) {
      if (n == 0) return 0;
      if (pos == d.length) return -1;
      if (n > sizes[k]) n = sizes[k];
      k = (k + 1) % sizes.length;
      if (n > d.length - pos) n = d.length - pos;
      for (int i = 0; i < n; ++i) b[o + i] = d[pos++];
      return n;
    }
    public void close() { }
  }
  static class Sink extends OutputStream {
    byte[] b = new byte[16]; int n;
    public void write(int c) {
      if (n == b.length) { byte[] m = new byte[2 * n]; for (int i = 0; i < n; ++i) m[i] = b[i]; b = m; }
      b[n++] = (byte) c;
    }
  }

  void begin(String[] h) throws Throwable {
    shut();
    file = dir + "/s" + files++;
  }
  void shut() throws Throwable {
    if (in != null) in.close();
    if (rd != null) rd.close();
    if (raf != null) raf.close();
    if (out != null) out.close();
    if (wr != null) wr.close();
    in = null; din = null; rd = null; raf = null; out = null; wr = null; sw = null; arr = null; sink = null; done = 0;
  }
  void end() throws Throwable {
    shut();
    new File(file).delete();
  }

  static byte[] bytes(int[] a) { byte[] r = new byte[a.length]; for (int i = 0; i < a.length; ++i) r[i] = (byte) a[i]; return r; }
  static char[] chars(int[] a) { char[] r = new char[a.length]; for (int i = 0; i < a.length; ++i) r[i] = (char) a[i]; return r; }
  static String show(byte[] a, int o, int n) { int[] r = new int[n]; for (int i = 0; i < n; ++i) r[i] = a[o + i] & 255; return list(r, n); }
  static String show(char[] a, int o, int n) { int[] r = new int[n]; for (int i = 0; i < n; ++i) r[i] = a[o + i]; return list(r, n); }
  static String show(String s) { int[] r = new int[s.length()]; for (int i = 0; i < r.length; ++i) r[i] = s.charAt(i); return list(r, r.length); }
  static String split(long v, int n) { int[] r = new int[n]; for (int i = n - 1; i >= 0; --i) { r[i] = (int) (v & 255); v >>= 8; } return list(r, n); }
  static long value(int[] a) { long v = 0; for (int i = 0; i < a.length; ++i) v = (v << 8) | (a[i] & 255); return v; }

  InputStream source(String src, byte[] d, int[] sizes, int av) throws IOException {
    if (src.equals("array")) {
      byte[] p = new byte[d.length + 3];
      for (int i = 0; i < d.length; ++i) p[i + 2] = d[i];
      return new ByteArrayInputStream(p, 2, d.length);
    }
    if (src.equals("file")) { write(d); return new FileInputStream(file); }
    if (src.equals("inflate")) {
      ByteArrayOutputStream o = new ByteArrayOutputStream();
      DeflaterOutputStream z = new DeflaterOutputStream(o);
      int h = d.length / 3;
      z.write(d, 0, h);
      for (int i = h; i < d.length && i < h + 2; ++i) z.write(d[i]);
      if (d.length > h + 2) z.write(d, h + 2, d.length - h - 2);
      z.close();
      return new InflaterInputStream(new Chunks(o.toByteArray(), sizes, av == 1));
    }
    return new Chunks(d, sizes, av == 1);
  }
  void write(byte[] d) throws IOException {
    FileOutputStream o = new FileOutputStream(file);
    o.write(d, 0, d.length);
    o.close();
  }
  static byte[] read(String file) throws IOException {
    FileInputStream f = new FileInputStream(file);
    byte[] b = new byte[4096];
    int n = 0, r;
    while ((r = f.read(b, n, b.length - n)) > 0) n += r;
    f.close();
    byte[] c = new byte[n];
    for (int i = 0; i < n; ++i) c[i] = b[i];
    return c;
  }
  InputStream stack(InputStream x, int[] ls) {
    for (int l : ls) x = l == 0 ? new FilterInputStream(x) : l == -1 ? new DataInputStream(x) : l == 64 ? new BufferedInputStream(x) : new BufferedInputStream(x, l);
    return x;
  }
  OutputStream ostack(String s, int[] ls) throws IOException {
    OutputStream o = s.equals("array") ? (arr = new ByteArrayOutputStream()) : s.equals("file") ? new FileOutputStream(file) : (OutputStream) (sink = new Sink());
    for (int l : ls) o = l == 0 ? new FilterOutputStream(o) : l == -1 ? new DataOutputStream(o) : l == -2 ? new PrintStream(o) : l == 64 ? new BufferedOutputStream(o) : new BufferedOutputStream(o, l);
    return o;
  }
  /** what has reached the far end */
  String reached(int from) throws IOException {
    if (sw != null) { String s = sw.toString(); return show(s.substring(from, s.length())); }
    byte[] b;
    if (arr != null) b = arr.toByteArray();
    else if (sink != null) { b = new byte[sink.n]; for (int i = 0; i < b.length; ++i) b[i] = sink.b[i]; }
    else b = read(file);
    return show(b, from, b.length - from);
  }
  int count() throws IOException { return sw != null ? sw.toString().length() : arr != null ? arr.size() : sink != null ? sink.n : read(file).length; }

  static void paint(byte[] b) { for (int i = 0; i < b.length; ++i) b[i] = 77; }

  String op(String[] a) throws Throwable {
    String o = a[0];
    if (o.equals("in")) {
      shut();
      inflating = a[1].equals("inflate");
      in = stack(source(a[1], bytes(nums(a[5])), nums(a[3]), num(a[4])), nums(a[2]));
      din = in instanceof DataInputStream ? (DataInputStream) in : null;
      return "ok";
    }
    if (o.equals("chars")) {
      shut();
      char[] d = chars(nums(a[6]));
      if (a[1].equals("string")) rd = new StringReader(new String(d));
      else if (a[1].equals("chunk") && a[2].equals("[]") && num(a[5]) == 1) rd = new CharChunks(d, nums(a[4]));
      else {
        ByteArrayOutputStream b = new ByteArrayOutputStream();
        OutputStreamWriter w = new OutputStreamWriter(b);
        int h = d.length / 2;
        if (h > 0 && h < d.length && d[h] >= 0xDC00 && d[h] < 0xE000) ++h;
        w.write(d, 0, h);
        w.write(new String(d, h, d.length - h));
        w.close();
        rd = new InputStreamReader(stack(source(a[1], b.toByteArray(), nums(a[4]), num(a[5])), nums(a[2])), "UTF-8");
      }
      for (int l : nums(a[3])) {
        if (l == -3) rd = new PushbackReader(rd);
        else if (l < -10) rd = l == -74 ? new LineNumberReader(rd) : new LineNumberReader(rd, -l - 10);
        else rd = l == 64 ? new BufferedReader(rd) : new BufferedReader(rd, l);
      }
      return "ok";
    }
    if (o.equals("out")) { shut(); out = ostack(a[1], nums(a[2])); return "ok"; }
    if (o.equals("text")) {
      shut();
      if (a[1].equals("string")) wr = sw = new StringWriter();
      else wr = new OutputStreamWriter(ostack(a[1], nums(a[2])));
      for (int l : nums(a[3])) wr = l == -2 ? new PrintWriter(wr) : l == 64 ? new BufferedWriter(wr) : new BufferedWriter(wr, l);
      return "ok";
    }
    if (o.equals("raf")) {
      shut();
      write(bytes(nums(a[2])));
      raf = new RandomAccessFile(file, a[1]);
      return "ok";
    }
    if (raf != null) return rafOp(o, a);
    if (rd != null) return charOp(o, a);
    if (in != null) return inOp(o, a);
    return outOp(o, a);
  }

  String inOp(String o, String[] a) throws Throwable {
    if (o.equals("read")) return "" + in.read();
    if (o.equals("zero")) return "" + in.read(new byte[3], 1, 0);
    if (o.equals("avail")) {
      int v = in.available();
      return v >= 0 && v <= num(a[1]) + (inflating ? 1 : 0) ? "ok" : "available " + v;
    }
    if (o.equals("readn")) {
      int k = num(a[1]), f = num(a[2]), n = 0;
      byte[] b = new byte[k + f + 2];
      paint(b);
      while (n < k) {
        int r = f == 0 && n == 0 && b.length == k ? in.read(b) : in.read(b, f + n, k - n);
        if (r == -1) break;
        if (r <= 0 || r > k - n) return "read " + r + " of " + (k - n);
        n += r;
      }
      for (int i = 0; i < b.length; ++i) if ((i < f || i >= f + n) && b[i] != 77) return "touched " + i;
      return show(b, f, n);
    }
    if (o.equals("skip")) {
      long k = num(a[1]), n = 0;
      if (k <= 0) return "" + in.skip(k);
      while (n < k) {
        long r = din != null && (k & 1) == 1 ? din.skipBytes((int) (k - n)) : in.skip(k - n);
        if (r < 0 || r > k - n) return "skip " + r;
        if (r == 0) {
          if (in.read() == -1) break;
          r = 1;
        }
        n += r;
      }
      return "" + n;
    }
    if (o.equals("line")) { String s = din.readLine(); return s == null ? "null" : show(s); }
    if (o.equals("fully")) { byte[] b = new byte[num(a[1])]; din.readFully(b); return show(b, 0, b.length); }
    if (o.equals("byte")) return "" + din.readByte();
    if (o.equals("ubyte")) return "" + din.readUnsignedByte();
    if (o.equals("short")) return "" + din.readShort();
    if (o.equals("ushort")) return "" + din.readUnsignedShort();
    if (o.equals("char")) return "" + (int) din.readChar();
    if (o.equals("bool")) return din.readBoolean() ? "true" : "false";
    if (o.equals("int")) return split(din.readInt(), 4);
    if (o.equals("long")) return split(din.readLong(), 8);
    if (o.equals("float")) { float f = din.readFloat(); return f != f ? "[-1]" : split(Float.floatToRawIntBits(f), 4); }
    if (o.equals("double")) { double f = din.readDouble(); return f != f ? "[-1]" : split(Double.doubleToRawLongBits(f), 8); }
    throw new Error(o);
  }

  String charOp(String o, String[] a) throws Throwable {
    if (o.equals("read")) return "" + rd.read();
    if (o.equals("zero")) { rd.read(new char[3], 1, 0); return "ok"; }
    if (o.equals("readn")) {
      int k = num(a[1]), f = num(a[2]), n = 0;
      char[] b = new char[k + f + 2];
      for (int i = 0; i < b.length; ++i) b[i] = 77;
      while (n < k) {
        int r = rd.read(b, f + n, k - n);
        if (r == -1) break;
        if (r <= 0 || r > k - n) return "read " + r + " of " + (k - n);
        n += r;
      }
      for (int i = 0; i < b.length; ++i) if ((i < f || i >= f + n) && b[i] != 77) return "touched " + i;
      return show(b, f, n);
    }
    if (o.equals("line")) { String s = ((BufferedReader) rd).readLine(); return s == null ? "null" : show(s); }
    if (o.equals("unread")) { ((PushbackReader) rd).unread(num(a[1])); return "ok"; }
    if (o.equals("number")) return "" + ((LineNumberReader) rd).getLineNumber();
    if (o.equals("setnumber")) { ((LineNumberReader) rd).setLineNumber(num(a[1])); return "ok"; }
    throw new Error(o);
  }

  String outOp(String o, String[] a) throws Throwable {
    if (o.equals("flush")) {
      if (wr != null) wr.flush(); else out.flush();
      String s = reached(done);
      done = count();
      return s;
    }
    if (o.equals("prefix")) {
      String s = reached(done);
      return s.equals("[]") || a[1].equals(s) || a[1].startsWith(s.substring(0, s.length() - 1) + ",") ? "ok" : "not a prefix: " + s;
    }
    if (o.equals("size")) return "" + arr.size();
    if (o.equals("bytes")) { byte[] b = arr.toByteArray(); return show(b, 0, b.length); }
    if (o.equals("to")) { Sink s = new Sink(); arr.writeTo(s); return show(s.b, 0, s.n); }
    if (o.equals("reset")) { arr.reset(); done = 0; return "ok"; }
    int[] v = a[1].charAt(0) == '[' ? nums(a[1]) : new int[] { num(a[1]) };
    if (wr != null) {
      char[] c = chars(v);
      int f = a.length > 2 ? num(a[2]) : 0;
      char[] p = new char[c.length + f + 1];
      for (int i = 0; i < c.length; ++i) p[f + i] = c[i];
      if (o.equals("tc")) wr.write(v[0]);
      else if (o.equals("ta")) wr.append(c[0]);
      else if (o.equals("tarr")) wr.write(p, f, c.length);
      else if (o.equals("tstr")) { if (f == 0) wr.write(new String(c)); else wr.write(new String(p), f, c.length); }
      else if (o.equals("tapp")) { if (f == 0) wr.append(new String(c)); else wr.append(new String(p), f, f + c.length); }
      else if (o.equals("tseq")) wr.append(new StringBuilder(new String(p)), f, f + c.length);
      else if (o.equals("tprint")) ((PrintWriter) wr).print(new String(c));
      else if (o.equals("tprintln")) ((PrintWriter) wr).println(new String(c));
      else throw new Error(o);
      return "ok";
    }
    if (o.equals("write")) out.write(v[0]);
    else if (o.equals("writea")) {
      int f = num(a[2]);
      if (f == 0) out.write(bytes(v));
      else {
        byte[] p = new byte[v.length + f + 1];
        for (int i = 0; i < v.length; ++i) p[f + i] = (byte) v[i];
        out.write(p, f, v.length);
      }
    } else if (o.charAt(0) == 'p') {
      PrintStream p = (PrintStream) out;
      String s = new String(chars(v));
      if (o.equals("print")) p.print(s);
      else if (o.equals("println")) p.println(s);
      else p.print(s.charAt(0));
    } else {
      DataOutputStream d = (DataOutputStream) out;
      if (o.equals("wbyte")) d.writeByte(v[0]);
      else if (o.equals("wshort")) d.writeShort((int) value(v));
      else if (o.equals("wchar")) d.writeChar((int) value(v));
      else if (o.equals("wbool")) d.writeBoolean(v[0] == 1);
      else if (o.equals("wint")) d.writeInt((int) value(v));
      else if (o.equals("wlong")) d.writeLong(value(v));
      else if (o.equals("wfloat")) d.writeFloat(Float.intBitsToFloat((int) value(v)));
      else if (o.equals("wdouble")) d.writeDouble(Double.longBitsToDouble(value(v)));
      else if (o.equals("wchars")) d.writeChars(new String(chars(v)));
      else if (o.equals("wbytes")) d.writeBytes(new String(chars(v)));
      else if (o.equals("wutf")) d.writeUTF(new String(chars(v)));
      else throw new Error(o);
    }
    return "ok";
  }

  String rafOp(String o, String[] a) throws Throwable {
    if (o.equals("fpos")) return "" + raf.getFilePointer();
    if (o.equals("flen")) return "" + raf.length();
    if (o.equals("fseek")) { raf.seek(num(a[1])); return "ok"; }
    if (o.equals("fskip")) return "" + raf.skipBytes(num(a[1]));
    if (o.equals("fwrite")) { raf.write(num(a[1])); return "ok"; }
    if (o.equals("fall")) { byte[] b = read(file); return show(b, 0, b.length); }
    if (o.equals("fread")) return "" + raf.read();
    if (o.equals("fbyte")) return "" + raf.readByte();
    if (o.equals("fubyte")) return "" + raf.readUnsignedByte();
    if (o.equals("fshort")) return "" + raf.readShort();
    if (o.equals("fushort")) return "" + raf.readUnsignedShort();
    if (o.equals("fint")) return split(raf.readInt(), 4);
    if (o.equals("flong")) return split(raf.readLong(), 8);
    if (o.equals("ffully")) { byte[] b = new byte[6]; raf.readFully(b, 1, 4); return show(b, 1, 4); }
    if (o.equals("freadn")) {
      int k = num(a[1]), f = num(a[2]), n = 0;
      byte[] b = new byte[k + f + 2];
      paint(b);
      while (n < k) {
        int r = raf.read(b, f + n, k - n);
        if (r == -1) break;
        if (r <= 0 || r > k - n) return "read " + r;
        n += r;
      }
      for (int i = 0; i < b.length; ++i) if ((i < f || i >= f + n) && b[i] != 77) return "touched " + i;
      return show(b, f, n);
    }
    FileChannel c = raf.getChannel();
    if (o.equals("fchread")) {
      int k = num(a[1]), f = num(a[2]);
      ByteBuffer b = ByteBuffer.allocate(k + f + 4);
      b.position(1);
      if (f > 0) b = b.slice();
      int p0 = b.position();
      b.position(p0 + f).limit(p0 + f + k);
      while (b.hasRemaining()) {
        int q = b.position();
        int r = c.read(b);
        if (r == -1) break;
        if (r <= 0 || b.position() != q + r) return "read " + r + " from " + q + " to " + b.position();
      }
      byte[] d = new byte[b.position() - p0 - f];
      b.position(p0 + f);
      b.get(d);
      return show(d, 0, d.length);
    }
    if (o.equals("fchreadat")) {
      int k = num(a[1]), p = num(a[2]);
      ByteBuffer b = ByteBuffer.allocate(k);
      while (b.hasRemaining()) {
        int r = c.read(b, p + b.position());
        if (r == -1) break;
        if (r <= 0) return "read " + r;
      }
      byte[] d = new byte[b.position()];
      b.position(0);
      b.get(d);
      return show(d, 0, d.length);
    }
    byte[] v = bytes(nums(a[1]));
    ByteBuffer b = ByteBuffer.allocate(v.length + 3);
    b.position(2);
    if ((v.length & 1) == 1) b = b.slice();
    int q = b.position();
    b.put(v);
    b.limit(b.position());
    b.position(q);
    if (o.equals("fchwrite")) while (b.hasRemaining()) c.write(b);
    else if (o.equals("fchwriteat")) while (b.hasRemaining()) c.write(b, num(a[2]) + b.position() - q);
    else throw new Error(o);
    return "ok";
  }

  public static void main(String[] a) throws Throwable {
    dir = a[0] + ".d";
    verbose = a.length > 1;
    File d = new File(dir);
    d.mkdir();
    run(a[0], new StreamsDriver());
    d.delete();
  }
}
