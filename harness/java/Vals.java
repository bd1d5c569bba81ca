/** Fields and arrays the generated programs of Bytecode.tla work on, and their output. */
public class Vals {
  public static boolean sz; public static byte sb; public static char sc; public static short ss;
  public static int si; public static long sj; public static float sf; public static double sd;
  public boolean z; public byte b; public char c; public short s; public int i; public long j; public float f; public double d;
  public static Vals o1, o2;
  public static boolean[] az; public static byte[] ab; public static char[] ac; public static short[] as;
  public static int[] ai; public static long[] aj; public static float[] af; public static double[] ad;
  static StringBuilder log;

  static void reset() {
    sz = false; sb = 0; sc = 0; ss = 0; si = 0; sj = 0; sf = 0; sd = 0;
    o1 = new Vals(); o2 = new Vals();
    az = new boolean[3]; ab = new byte[3]; ac = new char[3]; as = new short[3];
    ai = new int[3]; aj = new long[3]; af = new float[3]; ad = new double[3];
    log = new StringBuilder();
  }

  static void hex(long v, int n) { while (--n >= 0) log.append("0123456789abcdef".charAt((int) (v >> (4 * n)) & 15)); log.append(','); }
  public static void out(int v) { log.append('I'); hex(v, 8); }
  public static void out(long v) { log.append('J'); hex(v, 16); }
  static void num(char t, boolean neg, int exponent, long m, int bits, int bias, int max) {
    log.append(t);
    if (exponent == max && m != 0) { log.append("nan,"); return; }
    if (neg) log.append('-');
    if (exponent == max) log.append("inf");
    else if (exponent == 0 && m == 0) log.append('0');
    else {
      if (exponent == 0) exponent = 1; else m |= 1L << bits;
      int e = exponent - bias - bits;
      while ((m & 1) == 0) { m >>>= 1; ++e; }
      log.append(m).append('e').append(e);
    }
    log.append(',');
  }
  public static void out(float v) {
    int x = Float.floatToRawIntBits(v);
    num('F', x < 0, (x >> 23) & 255, x & 0x7fffff, 23, 127, 255);
  }
  public static void out(double v) {
    long x = Double.doubleToRawLongBits(v);
    num('D', x < 0, (int) (x >> 52) & 2047, x & 0xfffffffffffffL, 52, 1023, 2047);
  }
  public static void out(Object o) { log.append(o == null ? "R0," : o == o1 ? "R1," : o == o2 ? "R2," : "R?,"); }
  public static void out(String v) { log.append('S').append(v).append(','); }
  public static int same(Object a, Object b) { return a == b ? 1 : 0; }
  public static void mark() { log.append("/"); }
  public static void exc(Throwable t) { log.append(H.name(t).replace('!', 'X')).append(','); }
  void fields() { out(z ? 1 : 0); out(b); out(c); out(s); out(i); out(j); out(f); out(d); }
  public static void dump() {
    out(sz ? 1 : 0); out(sb); out(sc); out(ss); out(si); out(sj); out(sf); out(sd);
    o1.fields(); o2.fields();
    for (int k = 0; k < 3; ++k) { out(az[k] ? 1 : 0); out(ab[k]); out(ac[k]); out(as[k]); out(ai[k]); out(aj[k]); out(af[k]); out(ad[k]); }
  }
}
