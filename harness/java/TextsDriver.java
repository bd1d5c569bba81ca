import java.util.BitSet;

/** Replays behaviours of Texts.tla on String, StringBuilder, StringBuffer and BitSet. */
public class TextsDriver extends H {
  String kind;
  String[] r;
  BitSet[] s;
  StringBuilder b;
  StringBuffer f;

  static char[] chars(int[] a) {
    char[] c = new char[a.length];
    for (int i = 0; i < c.length; ++i) c[i] = (char) a[i];
    return c;
  }
  static byte[] utf8(int[] a, int pad) {
    byte[] t = new byte[a.length * 3 + pad * 2];
    int n = pad;
    for (int i = 0; i < pad; ++i) t[i] = 'x';
    for (int i = 0; i < a.length; ++i) {
      int c = a[i];
      if (c < 128) t[n++] = (byte) c;
      else if (c < 2048) { t[n++] = (byte) (192 + (c >> 6)); t[n++] = (byte) (128 + (c & 63)); }
      else { t[n++] = (byte) (224 + (c >> 12)); t[n++] = (byte) (128 + ((c >> 6) & 63)); t[n++] = (byte) (128 + (c & 63)); }
    }
    for (int i = 0; i < pad; ++i) t[n++] = 'y';
    byte[] res = new byte[n];
    for (int i = 0; i < n; ++i) res[i] = t[i];
    return res;
  }
  static int[] codes(CharSequence q) {
    int[] v = new int[q.length()];
    for (int i = 0; i < v.length; ++i) v[i] = q.charAt(i);
    return v;
  }
  static String show(CharSequence q) { int[] v = codes(q); return list(v, v.length); }
  static String show(char[] c, int o, int n) {
    int[] v = new int[n];
    for (int i = 0; i < n; ++i) v[i] = c[o + i];
    return list(v, n);
  }
  static String show(byte[] c) {
    int[] v = new int[c.length];
    for (int i = 0; i < v.length; ++i) v[i] = c[i] & 255;
    return list(v, v.length);
  }
  static String show(boolean x) { return x ? "true" : "false"; }
  static String two(int a, int b) { return list(new int[] { a, b }, 2); }

  void begin(String[] h) {
    kind = h[0];
    r = new String[] { null, "", "", "" };
    s = new BitSet[] { null, new BitSet(), new BitSet(), new BitSet(77) };
    b = kind.equals("buffer") ? null : new StringBuilder();
    f = kind.equals("buffer") ? new StringBuffer() : null;
  }

  static class Wrap {
    String s;
    Wrap(String s) { this.s = s; }
    public String toString() { return s; }
  }
  static class Seq implements CharSequence {
    String s;
    Seq(String s) { this.s = s; }
    public int length() { return s.length(); }
    public char charAt(int i) { return s.charAt(i); }
    public CharSequence subSequence(int a, int b) { return new Seq(s.substring(a, b)); }
    public String toString() { return s; }
  }

  String make(int form, int[] a) throws Throwable {
    switch (form) {
    case 0: return new String(chars(a));
    case 1: return new String(utf8(a, 0));
    case 2: {
      char[] c = new char[a.length + 5];
      for (int i = 0; i < a.length; ++i) c[i + 2] = (char) a[i];
      String x = new String(c, 2, a.length);
      for (int i = 0; i < c.length; ++i) c[i] = '?';
      return x;
    }
    case 3: {
      byte[] t = utf8(a, 3);
      String x = new String(t, 3, t.length - 6);
      for (int i = 0; i < t.length; ++i) t[i] = '?';
      return x;
    }
    case 4: {
      boolean latin = true;
      for (int i = 0; i < a.length; ++i) if (a[i] > 255) latin = false;
      if (! latin) return new String(utf8(a, 0), "UTF-8");
      byte[] t = new byte[a.length];
      for (int i = 0; i < a.length; ++i) t[i] = (byte) a[i];
      return new String(t, "ISO-8859-1");
    }
    default: return new String(String.valueOf(chars(a)));
    }
  }

  String op(String[] a) throws Throwable {
    try {
      return op1(a);
    } catch (IndexOutOfBoundsException e) {
      if (verbose) e.printStackTrace();
      return "!I";
    }
  }

  String put(int k, String v) { r[k] = v; return show(v); }

  String op1(String[] a) throws Throwable {
    String o = a[0];
    if (kind.equals("bits")) return bits(o, a);
    if (o.equals("new")) return put(num(a[1]), make(num(a[2]), nums(a[3])));
    if (o.equals("newRange")) {
      int[] q = nums(a[3]);
      if (num(a[2]) == 0) return put(num(a[1]), new String(chars(q), num(a[4]), num(a[5])));
      byte[] t = new byte[q.length];  // only ASCII can be cut in bytes
      boolean ascii = true;
      for (int i = 0; i < t.length; ++i) { t[i] = (byte) q[i]; if (q[i] > 127) ascii = false; }
      if (! ascii) return put(num(a[1]), String.valueOf(chars(q), num(a[4]), num(a[5])));
      return put(num(a[1]), new String(t, num(a[4]), num(a[5])));
    }
    if (o.equals("subFrom")) return put(num(a[1]), r[num(a[2])].substring(num(a[3])));
    if (o.equals("sub")) {
      String x = r[num(a[3])];
      return put(num(a[1]), num(a[2]) == 0 ? x.substring(num(a[4]), num(a[5])) : x.subSequence(num(a[4]), num(a[5])).toString());
    }
    if (o.equals("concat")) {
      String x = r[num(a[3])], y = r[num(a[4])];
      return put(num(a[1]), num(a[2]) == 0 ? x.concat(y) : x + y);
    }
    if (o.equals("replaceCh")) return put(num(a[1]), r[num(a[2])].replace((char) num(a[3]), (char) num(a[4])));
    if (o.equals("replace")) return put(num(a[1]), r[num(a[2])].replace(r[num(a[3])], (CharSequence) new Seq(r[num(a[4])])));
    if (o.equals("trim")) return put(num(a[1]), r[num(a[2])].trim());
    if (o.equals("case")) return put(num(a[1]), num(a[2]) == 0 ? r[num(a[3])].toLowerCase() : r[num(a[3])].toUpperCase());
    if (o.equals("charAt")) return "" + (int) r[num(a[1])].charAt(num(a[2]));
    if (o.equals("length")) return "" + r[num(a[1])].length();
    if (o.equals("isEmpty")) return show(r[num(a[1])].isEmpty());
    if (o.equals("indexOfCh")) return "" + r[num(a[1])].indexOf(num(a[2]), num(a[3]));
    if (o.equals("lastIndexOfCh")) return "" + r[num(a[1])].lastIndexOf(num(a[2]), num(a[3]));
    if (o.equals("firstLastCh")) return two(r[num(a[1])].indexOf(num(a[2])), r[num(a[1])].lastIndexOf(num(a[2])));
    if (o.equals("indexOf")) return "" + r[num(a[1])].indexOf(r[num(a[2])], num(a[3]));
    if (o.equals("lastIndexOf")) return "" + r[num(a[1])].lastIndexOf(r[num(a[2])], num(a[3]));
    if (o.equals("firstLast")) return two(r[num(a[1])].indexOf(r[num(a[2])]), r[num(a[1])].lastIndexOf(r[num(a[2])]));
    if (o.equals("startsEnds")) {
      String x = r[num(a[1])], y = r[num(a[2])];
      return list(new int[] { x.startsWith(y) ? 1 : 0, x.endsWith(y) ? 1 : 0, x.contains(y) ? 1 : 0 }, 3);
    }
    if (o.equals("startsWith")) return show(r[num(a[1])].startsWith(r[num(a[2])], num(a[3])));
    if (o.equals("compare")) return "" + r[num(a[1])].compareTo(r[num(a[2])]);
    if (o.equals("equals")) return show(r[num(a[1])].equals(r[num(a[2])]));
    if (o.equals("compareIgnoreCase")) return "" + r[num(a[1])].compareToIgnoreCase(r[num(a[2])]);
    if (o.equals("equalsIgnoreCase")) return show(r[num(a[1])].equalsIgnoreCase(r[num(a[2])]));
    if (o.equals("hash")) { int h = r[num(a[1])].hashCode(); return two(h >>> 16, h & 65535); }
    if (o.equals("region")) {
      String x = r[num(a[2])], y = r[num(a[4])];
      return show(num(a[1]) == 0 ? x.regionMatches(num(a[3]), y, num(a[5]), num(a[6])) : x.regionMatches(true, num(a[3]), y, num(a[5]), num(a[6])));
    }
    if (o.equals("getChars")) {
      char[] c = new char[20];
      int x = num(a[2]), y = num(a[3]), at = num(a[4]);
      r[num(a[1])].getChars(x, y, c, at);
      for (int i = 0; i < 20; ++i) if ((i < at || i >= at + y - x) && c[i] != 0) return "?stray";
      return show(c, at, y - x);
    }
    if (o.equals("toChars")) {
      char[] c = r[num(a[1])].toCharArray();
      String v = show(c, 0, c.length);
      for (int i = 0; i < c.length; ++i) c[i] = '#';
      return v;
    }
    if (o.equals("bytes")) { byte[] c = r[num(a[1])].getBytes("UTF-8"); return show(c); }
    if (o.equals("latin")) return show(r[num(a[1])].getBytes("ISO-8859-1"));
    if (o.equals("split")) return join(r[num(a[1])].split("" + (char) num(a[2])));
    if (o.equals("all")) return join(new String[] { r[1], r[2], r[3] });
    return f != null ? buffer(o, a) : builder(o, a);
  }

  static String join(String[] p) {
    int n = 0;
    for (int i = 0; i < p.length; ++i) n += p[i].length() + 1;
    int[] v = new int[n];
    n = 0;
    for (int i = 0; i < p.length; ++i) {
      for (int j = 0; j < p[i].length(); ++j) v[n++] = p[i].charAt(j);
      v[n++] = -2;
    }
    return list(v, n);
  }

  String len() { return "" + b.length(); }

  String builder(String o, String[] a) throws Throwable {
    if (o.equals("append")) {
      String x = r[num(a[2])];
      switch (num(a[1])) {
      case 0: b.append(x); break;
      case 1: b.append((Object) new Wrap(x)); break;
      case 2: b.append((CharSequence) new Seq(x)); break;
      case 3: b.append(x.toCharArray()); break;
      default: b.append(new StringBuffer(x)); break;
      }
    } else if (o.equals("appendCh")) b.append((char) num(a[1]));
    else if (o.equals("appendInt")) { if (num(a[1]) == 0) b.append(num(a[2])); else b.append((long) num(a[2])); }
    else if (o.equals("appendBool")) b.append(num(a[1]) == 1);
    else if (o.equals("appendNull")) { if (num(a[1]) == 0) b.append((String) null); else if (num(a[1]) == 1) b.append((Object) null); else b.append((CharSequence) null); }
    else if (o.equals("appendRange")) {
      String x = r[num(a[2])];
      int i = num(a[3]), j = num(a[4]);
      if (num(a[1]) == 0) b.append((CharSequence) x, i, j); else b.append(x.toCharArray(), i, j - i);
    }
    else if (o.equals("insert")) { String x = r[num(a[3])]; if (num(a[1]) == 0) b.insert(num(a[2]), x); else b.insert(num(a[2]), (CharSequence) new Seq(x)); }
    else if (o.equals("insertCh")) b.insert(num(a[1]), (char) num(a[2]));
    else if (o.equals("insertInt")) b.insert(num(a[1]), num(a[2]));
    else if (o.equals("insertNull")) b.insert(num(a[1]), (String) null);
    else if (o.equals("delete")) b.delete(num(a[1]), num(a[2]));
    else if (o.equals("deleteCharAt")) b.deleteCharAt(num(a[1]));
    else if (o.equals("replaceB")) b.replace(num(a[1]), num(a[2]), r[num(a[3])]);
    else if (o.equals("setCharAt")) b.setCharAt(num(a[1]), (char) num(a[2]));
    else if (o.equals("setLength")) b.setLength(num(a[1]));
    else if (o.equals("charAtB")) return "" + (int) b.charAt(num(a[1]));
    else if (o.equals("lengthB")) return "" + b.length();
    else if (o.equals("indexOfB")) return "" + b.indexOf(r[num(a[1])], num(a[2]));
    else if (o.equals("lastIndexOfB")) return "" + b.lastIndexOf(r[num(a[1])], num(a[2]));
    else if (o.equals("firstLastB")) return two(b.indexOf(r[num(a[1])]), b.lastIndexOf(r[num(a[1])]));
    else if (o.equals("indexOfB1")) return "" + b.indexOf(r[num(a[1])]);
    else if (o.equals("subB")) return put(num(a[1]), num(a[2]) == 0 ? b.substring(num(a[3]), num(a[4])) : b.subSequence(num(a[3]), num(a[4])).toString());
    else if (o.equals("subFromB")) return put(num(a[1]), b.substring(num(a[2])));
    else if (o.equals("getCharsB")) {
      int n = num(a[2]) - num(a[1]);
      char[] c = new char[130];
      b.getChars(num(a[1]), num(a[2]), c, 3);
      return show(c, 3, n);
    }
    else if (o.equals("stringB")) return put(num(a[1]), b.toString());
    else if (o.equals("showB")) return show(b.toString());
    else if (o.equals("resetB")) b = new StringBuilder(r[num(a[1])]);
    else return "?" + o;
    return len();
  }

  String buffer(String o, String[] a) throws Throwable {
    if (o.equals("append")) {
      String x = r[num(a[2])];
      switch (num(a[1])) {
      case 0: f.append(x); break;
      case 1: f.append((Object) new Wrap(x)); break;
      case 2: f.append((CharSequence) new Seq(x)); break;
      case 3: f.append(x.toCharArray()); break;
      default: f.append(new StringBuffer(x)); break;
      }
    } else if (o.equals("appendCh")) f.append((char) num(a[1]));
    else if (o.equals("appendInt")) { if (num(a[1]) == 0) f.append(num(a[2])); else f.append((long) num(a[2])); }
    else if (o.equals("appendBool")) f.append(num(a[1]) == 1);
    else if (o.equals("appendNull")) { if (num(a[1]) == 0) f.append((String) null); else if (num(a[1]) == 1) f.append((Object) null); else f.append((CharSequence) null); }
    else if (o.equals("insert")) f.insert(num(a[2]), r[num(a[3])]);
    else if (o.equals("insertCh")) f.insert(num(a[1]), (char) num(a[2]));
    else if (o.equals("insertInt")) f.insert(num(a[1]), num(a[2]));
    else if (o.equals("insertNull")) f.insert(num(a[1]), (String) null);
    else if (o.equals("delete")) f.delete(num(a[1]), num(a[2]));
    else if (o.equals("deleteCharAt")) f.deleteCharAt(num(a[1]));
    else if (o.equals("replaceB")) f.replace(num(a[1]), num(a[2]), r[num(a[3])]);
    else if (o.equals("setCharAt")) f.setCharAt(num(a[1]), (char) num(a[2]));
    else if (o.equals("setLength")) f.setLength(num(a[1]));
    else if (o.equals("charAtB")) return "" + (int) f.charAt(num(a[1]));
    else if (o.equals("lengthB")) return "" + f.length();
    else if (o.equals("indexOfB")) return "" + f.indexOf(r[num(a[1])], num(a[2]));
    else if (o.equals("indexOfB1")) return "" + f.indexOf(r[num(a[1])]);
    else if (o.equals("subB")) return put(num(a[1]), num(a[2]) == 0 ? f.substring(num(a[3]), num(a[4])) : f.subSequence(num(a[3]), num(a[4])).toString());
    else if (o.equals("getCharsB")) {
      int n = num(a[2]) - num(a[1]);
      char[] c = new char[130];
      f.getChars(num(a[1]), num(a[2]), c, 3);
      return show(c, 3, n);
    }
    else if (o.equals("stringB")) return put(num(a[1]), f.toString());
    else if (o.equals("showB")) return show(f.toString());
    else if (o.equals("resetB")) f = new StringBuffer(r[num(a[1])]);
    else return "?" + o;
    return "" + f.length();
  }

  static String members(BitSet[] p) {
    int[] v = new int[1000];
    int n = 0;
    for (int k = 1; k < p.length; ++k) {
      for (int i = 0; i < 260; ++i) if (p[k].get(i)) v[n++] = i;
      v[n++] = -2;
    }
    return list(v, n);
  }
  /** counts with get(), not cardinality() */
  static String count(BitSet x) {
    int n = 0;
    for (int i = 0; i < 260; ++i) if (x.get(i)) ++n;
    return "" + n;
  }

  String bits(String o, String[] a) {
    if (o.equals("allSets")) return members(s);
    int k = num(a[1]);
    BitSet x = s[k];
    if (o.equals("set")) x.set(num(a[2]));
    else if (o.equals("clear")) x.clear(num(a[2]));
    else if (o.equals("flip")) x.flip(num(a[2]));
    else if (o.equals("setRange")) x.set(num(a[2]), num(a[3]));
    else if (o.equals("clearRange")) x.clear(num(a[2]), num(a[3]));
    else if (o.equals("flipRange")) x.flip(num(a[2]), num(a[3]));
    else if (o.equals("and")) x.and(s[num(a[2])]);
    else if (o.equals("andNot")) x.andNot(s[num(a[2])]);
    else if (o.equals("or")) x.or(s[num(a[2])]);
    else if (o.equals("xor")) x.xor(s[num(a[2])]);
    else if (o.equals("get")) return show(x.get(num(a[2])));
    else if (o.equals("isEmptySet")) return show(x.isEmpty());
    else if (o.equals("intersects")) return show(x.intersects(s[num(a[2])]));
    else if (o.equals("lengthSet")) return "" + x.length();
    else if (o.equals("nextSet")) return "" + x.nextSetBit(num(a[2]));
    else if (o.equals("nextClear")) return "" + x.nextClearBit(num(a[2]));
    else if (o.equals("cardinality")) return "" + x.cardinality();
    else if (o.equals("newSet")) x = s[k] = new BitSet(num(a[2]));
    else return "?" + o;
    return count(x);
  }

  public static void main(String[] args) throws Throwable {
    verbose = args.length > 1;
    run(args[0], new TextsDriver());
  }
}
