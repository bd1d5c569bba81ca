import java.nio.Buffer;
import java.nio.ByteBuffer;
import java.nio.CharBuffer;

/** Replays behaviours of Buffers.tla on ByteBuffer and CharBuffer. */
public class BuffersDriver extends H {
  boolean isByte;
  ByteBuffer[] b;
  CharBuffer[] c;

  void begin(String[] h) {
    isByte = h[0].equals("byte");
    b = new ByteBuffer[5];
    c = new CharBuffer[5];
  }

  static byte[] bytes(int[] a) {
    byte[] r = new byte[a.length];
    for (int i = 0; i < a.length; ++i) r[i] = (byte) a[i];
    return r;
  }
  static char[] chars(int[] a) {
    char[] r = new char[a.length];
    for (int i = 0; i < a.length; ++i) r[i] = (char) a[i];
    return r;
  }
  static String show(byte[] a) {
    int[] r = new int[a.length];
    for (int i = 0; i < a.length; ++i) r[i] = a[i];
    return list(r, r.length);
  }
  static String show(char[] a) {
    int[] r = new int[a.length];
    for (int i = 0; i < a.length; ++i) r[i] = a[i];
    return list(r, r.length);
  }
  static String info(Buffer x) {
    return list(new int[] { x.position(), x.limit(), x.capacity(), x.remaining(), x.isReadOnly() ? 1 : 0 }, 5);
  }
  String info(int k) { return info(isByte ? (Buffer) b[k] : c[k]); }

  static long value(byte[] a) {
    long v = 0;
    for (int i = 0; i < a.length; ++i) v = (v << 8) | (a[i] & 255);
    return v;
  }
  static String split(long v, int n) {
    int[] r = new int[n];
    for (int i = n - 1; i >= 0; --i) { r[i] = (byte) v; v >>= 8; }
    return list(r, n);
  }

  String op(String[] a) throws Throwable {
    try {
      return op1(a);
    } catch (IndexOutOfBoundsException e) {
      if (verbose) e.printStackTrace();
      return "!I";
    }
  }

  String op1(String[] a) throws Throwable {
    String o = a[0];
    int k = num(a[1]);
    Buffer x = isByte ? (Buffer) b[k] : c[k];
    if (o.equals("alloc")) {
      if (isByte) b[k] = num(a[2]) == 1 ? ByteBuffer.allocate(num(a[3])) : ByteBuffer.allocateDirect(num(a[3]));
      else c[k] = CharBuffer.allocate(num(a[3]));
      return a[3];
    }
    if (o.equals("info")) return info(k);
    if (o.equals("position")) { x.position(num(a[2])); return info(k); }
    if (o.equals("limit")) { x.limit(num(a[2])); return info(k); }
    if (o.equals("clear")) { x.clear(); return info(k); }
    if (o.equals("flip")) { x.flip(); return info(k); }
    if (o.equals("rewind")) { x.rewind(); return info(k); }
    return isByte ? byteOp(o, k, a) : charOp(o, k, a);
  }

  String byteOp(String o, int k, String[] a) throws Throwable {
    ByteBuffer x = b[k];
    if (o.equals("wrap")) {
      byte[] arr = bytes(nums(a[2]));
      b[k] = num(a[3]) == 0 && num(a[4]) == arr.length ? ByteBuffer.wrap(arr) : ByteBuffer.wrap(arr, num(a[3]), num(a[4]));
      return "" + b[k].capacity();
    }
    if (o.equals("slice")) { b[k] = b[num(a[2])].slice(); return "" + b[k].capacity(); }
    if (o.equals("dup")) { b[k] = b[num(a[2])].duplicate(); return "" + b[k].capacity(); }
    if (o.equals("readOnly")) { b[k] = b[num(a[2])].asReadOnlyBuffer(); return "" + b[k].capacity(); }
    if (o.equals("compact")) { x.compact(); return "" + x.position(); }
    if (o.equals("get")) return "" + x.get();
    if (o.equals("getAt")) return "" + x.get(num(a[2]));
    if (o.equals("put")) { x.put((byte) num(a[2])); return "" + x.position(); }
    if (o.equals("putAt")) { x.put(num(a[2]), (byte) num(a[3])); return "" + x.position(); }
    if (o.equals("getN")) {
      int n = num(a[2]);
      boolean f = num(a[3]) == 1;
      long v = n == 2 ? x.getShort() : n == 4 ? (f ? Float.floatToRawIntBits(x.getFloat()) : x.getInt()) : f ? Double.doubleToRawLongBits(x.getDouble()) : x.getLong();
      return split(v, n);
    }
    if (o.equals("getNAt")) {
      int i = num(a[2]), n = num(a[3]);
      boolean f = num(a[4]) == 1;
      long v = n == 2 ? x.getShort(i) : n == 4 ? (f ? Float.floatToRawIntBits(x.getFloat(i)) : x.getInt(i)) : f ? Double.doubleToRawLongBits(x.getDouble(i)) : x.getLong(i);
      return split(v, n);
    }
    if (o.equals("putN")) {
      byte[] v = bytes(nums(a[2]));
      boolean f = num(a[3]) == 1;
      long l = value(v);
      if (v.length == 2) x.putShort((short) l);
      else if (v.length == 4) { if (f) x.putFloat(Float.intBitsToFloat((int) l)); else x.putInt((int) l); }
      else if (f) x.putDouble(Double.longBitsToDouble(l)); else x.putLong(l);
      return "" + x.position();
    }
    if (o.equals("putNAt")) {
      int i = num(a[2]);
      byte[] v = bytes(nums(a[3]));
      boolean f = num(a[4]) == 1;
      long l = value(v);
      if (v.length == 2) x.putShort(i, (short) l);
      else if (v.length == 4) { if (f) x.putFloat(i, Float.intBitsToFloat((int) l)); else x.putInt(i, (int) l); }
      else if (f) x.putDouble(i, Double.longBitsToDouble(l)); else x.putLong(i, l);
      return "" + x.position();
    }
    if (o.equals("getArr")) {
      byte[] d = new byte[num(a[2])];
      int at = num(a[3]), n = num(a[4]);
      for (int i = 0; i < d.length; ++i) d[i] = 77;
      if (at == 0 && n == d.length) x.get(d); else x.get(d, at, n);
      byte[] r = new byte[n];
      for (int i = 0; i < d.length; ++i) if (i >= at && i < at + n) r[i - at] = d[i]; else if (d[i] != 77) return "?stray";
      return show(r);
    }
    if (o.equals("putArr")) {
      byte[] d = bytes(nums(a[2]));
      int at = num(a[3]), n = num(a[4]);
      if (at == 0 && n == d.length) x.put(d); else x.put(d, at, n);
      return "" + x.position();
    }
    if (o.equals("putBuf")) { int r = b[num(a[2])].remaining(); x.put(b[num(a[2])]); return "" + r; }
    if (o.equals("arrayPut")) { x.array()[x.arrayOffset() + num(a[2])] = (byte) num(a[3]); return "" + x.position(); }
    if (o.equals("array")) return show(x.array());
    if (o.equals("compare")) { int d = x.compareTo(b[num(a[2])]); return d < 0 ? "-1" : d > 0 ? "1" : "0"; }
    if (o.equals("equals")) {
      ByteBuffer y = b[num(a[2])];
      boolean e = x.equals(y);
      return list(new int[] { e ? 1 : 0, e ? (x.hashCode() == y.hashCode() ? 1 : 0) : -1 }, 2);
    }
    if (o.equals("show")) {
      byte[] r = new byte[x.limit()];
      for (int i = 0; i < r.length; ++i) r[i] = x.get(i);
      return show(r);
    }
    return "?" + o;
  }

  String charOp(String o, int k, String[] a) throws Throwable {
    CharBuffer x = c[k];
    if (o.equals("wrap")) {
      char[] arr = chars(nums(a[2]));
      c[k] = num(a[3]) == 0 && num(a[4]) == arr.length ? CharBuffer.wrap(arr) : CharBuffer.wrap(arr, num(a[3]), num(a[4]));
      return "" + c[k].capacity();
    }
    if (o.equals("slice")) { c[k] = c[num(a[2])].slice(); return "" + c[k].capacity(); }
    if (o.equals("readOnly")) { c[k] = c[num(a[2])].asReadOnlyBuffer(); return "" + c[k].capacity(); }
    if (o.equals("compact")) { x.compact(); return "" + x.position(); }
    if (o.equals("get")) return "" + (int) x.get();
    if (o.equals("getAt")) return "" + (int) x.get(num(a[2]));
    if (o.equals("put")) { x.put((char) num(a[2])); return "" + x.position(); }
    if (o.equals("putAt")) { x.put(num(a[2]), (char) num(a[3])); return "" + x.position(); }
    if (o.equals("getArr")) {
      char[] d = new char[num(a[2])];
      int at = num(a[3]), n = num(a[4]);
      for (int i = 0; i < d.length; ++i) d[i] = 77;
      if (at == 0 && n == d.length) x.get(d); else x.get(d, at, n);
      char[] r = new char[n];
      for (int i = 0; i < d.length; ++i) if (i >= at && i < at + n) r[i - at] = d[i]; else if (d[i] != 77) return "?stray";
      return show(r);
    }
    if (o.equals("putArr")) {
      char[] d = chars(nums(a[2]));
      int at = num(a[3]), n = num(a[4]);
      if (at == 0 && n == d.length) x.put(d); else x.put(d, at, n);
      return "" + x.position();
    }
    if (o.equals("putBuf")) { int r = c[num(a[2])].remaining(); x.put(c[num(a[2])]); return "" + r; }
    if (o.equals("arrayPut")) { x.array()[x.arrayOffset() + num(a[2])] = (char) num(a[3]); return "" + x.position(); }
    if (o.equals("array")) return show(x.array());
    if (o.equals("compare")) { int d = x.compareTo(c[num(a[2])]); return d < 0 ? "-1" : d > 0 ? "1" : "0"; }
    if (o.equals("equals")) {
      CharBuffer y = c[num(a[2])];
      boolean e = x.equals(y);
      return list(new int[] { e ? 1 : 0, e ? (x.hashCode() == y.hashCode() ? 1 : 0) : -1 }, 2);
    }
    if (o.equals("show")) {
      char[] r = new char[x.limit()];
      for (int i = 0; i < r.length; ++i) r[i] = x.get(i);
      return show(r);
    }
    return "?" + o;
  }

  public static void main(String[] args) throws Throwable {
    verbose = args.length > 1;
    run(args[0], new BuffersDriver());
  }
}
