import java.util.*;

/** Replays behaviours of Lists.tla on the lists and deques of the class library. */
public class ListsDriver extends H {
  String kind;
  Collection<Integer> c;
  List<Integer> l;
  Deque<Integer> d;
  Iterator<Integer> it;

  static final Comparator<Integer> UP = new Comparator<Integer>() {
    public int compare(Integer a, Integer b) { return a < b ? -1 : a > b ? 1 : 0; }
  };
  static final Comparator<Integer> DOWN = new Comparator<Integer>() {
    public int compare(Integer a, Integer b) { return b < a ? -1 : b > a ? 1 : 0; }
  };

  static Integer v(int x) { return x == -1 ? null : new Integer(x); }
  static String show(Object x) { return x == null ? "-1" : x instanceof Integer ? "" + ((Integer) x).intValue() : x instanceof Boolean ? ((Boolean) x ? "true" : "false") : "?" + x; }
  static String show(Object[] a) {
    int[] r = new int[a.length];
    for (int i = 0; i < r.length; ++i) r[i] = a[i] == null ? -1 : (Integer) a[i];
    return list(r, r.length);
  }
  static Integer[] ints(int[] a) {
    Integer[] r = new Integer[a.length];
    for (int i = 0; i < r.length; ++i) r[i] = v(a[i]);
    return r;
  }
  static List<Integer> coll(String s) {
    int[] a = nums(s);
    List<Integer> r = a.length % 2 == 0 ? new ArrayList<Integer>() : new LinkedList<Integer>();
    for (int i = 0; i < a.length; ++i) r.add(v(a[i]));
    return r;
  }

  void begin(String[] h) {
    kind = h[0];
    it = null;
    l = null;
    d = null;
    int variant = num(h[2]);
    if (kind.equals("array")) l = variant == 0 ? new ArrayList<Integer>() : new ArrayList<Integer>(variant * 3);
    else if (kind.equals("linked")) { LinkedList<Integer> x = new LinkedList<Integer>(); l = x; d = x; }
    else if (kind.equals("vector")) l = variant == 0 ? new Vector<Integer>() : new Vector<Integer>(variant);
    else if (kind.equals("stack")) l = new Stack<Integer>();
    else if (kind.equals("deque")) d = variant == 0 ? new ArrayDeque<Integer>() : variant == 5 ? new ArrayDeque<Integer>(new ArrayList<Integer>()) : new ArrayDeque<Integer>(variant);
    else if (kind.equals("aslist")) l = Arrays.asList(ints(nums(h[1])));
    else if (kind.equals("sync")) l = variant % 2 == 0 ? Collections.synchronizedList(new ArrayList<Integer>()) : Collections.synchronizedList(new LinkedList<Integer>());
    c = l != null ? (Collection<Integer>) l : d;
  }

  static String name2(Throwable t) {
    String n = name(t);
    return t instanceof IndexOutOfBoundsException ? "!I" : n;
  }

  String op(String[] a) throws Throwable {
    try {
      return op1(a);
    } catch (IndexOutOfBoundsException e) {
      if (verbose) e.printStackTrace();
      return "!I";
    }
  }

  /** a found index as the element there, else the insertion point */
  String found(int r, Object x) { return r >= 0 ? show(x) : "" + (-1000 - (-1 - r)); }

  String op1(String[] a) throws Throwable {
    String o = a[0];
    int x = a.length > 1 && a[1].charAt(0) != '[' ? num(a[1]) : 0;
    int y = a.length > 2 && a[2].charAt(0) != '[' ? num(a[2]) : 0;
    int z = a.length > 3 && a[3].charAt(0) != '[' ? num(a[3]) : 0;
    if (o.equals("add")) return show(c.add(v(x)));
    if (o.equals("addAt")) { l.add(x, v(y)); return "0"; }
    if (o.equals("addAll")) return show(c.addAll(coll(a[1])));
    if (o.equals("addAllAt")) return show(l.addAll(x, coll(a[2])));
    if (o.equals("get")) return show(l.get(x));
    if (o.equals("set")) return show(l.set(x, v(y)));
    if (o.equals("removeAt")) return show(l.remove(x));
    if (o.equals("remove")) return show(c.remove(v(x)));
    if (o.equals("removeFirstOccurrence")) return show(d.removeFirstOccurrence(v(x)));
    if (o.equals("removeLastOccurrence")) return show(d.removeLastOccurrence(v(x)));
    if (o.equals("removeAll")) return show(c.removeAll(coll(a[1])));
    if (o.equals("contains")) return show(c.contains(v(x)));
    if (o.equals("containsAll")) return show(c.containsAll(coll(a[1])));
    if (o.equals("indexOf")) return show(l.indexOf(v(x)));
    if (o.equals("lastIndexOf")) return show(l.lastIndexOf(v(x)));
    if (o.equals("size")) return show(c.size());
    if (o.equals("isEmpty")) return show(c.isEmpty());
    if (o.equals("clear")) { c.clear(); return "0"; }
    if (o.equals("toArray")) return show(c.toArray());
    if (o.equals("toArrayIn")) {
      Integer[] r = new Integer[c.size() + x];
      for (int i = 0; i < r.length; ++i) r[i] = 7;
      Integer[] q = c.toArray(r);
      if (q != r) return "another array";
      if (c.size() > 0 && c.toArray(new Integer[0]).length != c.size()) return "wrong length";
      return show(q);
    }
    if (o.equals("copy")) {
      Collection<Integer> r = d != null && l == null ? new ArrayDeque<Integer>(c) : c.size() % 2 == 0 ? new ArrayList<Integer>(c) : new LinkedList<Integer>(c);
      Vector<Integer> w = new Vector<Integer>(c);
      if (r.size() != w.size()) return "sizes";
      Object[] p = r.toArray(), q = w.toArray();
      for (int i = 0; i < p.length; ++i) if (p[i] != q[i]) return "differ";
      return show(p);
    }
    if (o.equals("string")) {
      String t = c.toString();
      // "[a, b]"
      StringBuilder b = new StringBuilder();
      for (int i = 0; i < t.length(); ++i) if (t.charAt(i) != ' ') b.append(t.charAt(i));
      t = b.toString();
      // null is shown as -1
      int i;
      while ((i = t.indexOf("null")) >= 0) t = t.substring(0, i) + "-1" + t.substring(i + 4);
      return t;
    }
    if (o.equals("each")) {
      int[] r = new int[c.size()];
      int i = 0;
      for (Integer e : c) r[i++] = e == null ? -1 : e;
      return list(r, i);
    }
    if (o.equals("iterator")) { it = c.iterator(); return "0"; }
    if (o.equals("listIterator")) { it = null; it = x == 0 && c.size() % 2 == 0 ? l.listIterator() : l.listIterator(x); return "0"; }
    if (o.equals("descendingIterator")) { it = d.descendingIterator(); return "0"; }
    if (o.equals("next")) return show(it.next());
    if (o.equals("hasNext")) return show(it.hasNext());
    if (o.equals("previous")) return show(((ListIterator<Integer>) it).previous());
    if (o.equals("hasPrevious")) return show(((ListIterator<Integer>) it).hasPrevious());
    if (o.equals("itRemove")) { it.remove(); return "0"; }
    if (o.equals("addFirst")) { d.addFirst(v(x)); return "0"; }
    if (o.equals("push")) { d.push(v(x)); return "0"; }
    if (o.equals("offerFirst")) return show(d.offerFirst(v(x)));
    if (o.equals("addLast")) { d.addLast(v(x)); return "0"; }
    if (o.equals("offerLast")) return show(d.offerLast(v(x)));
    if (o.equals("offer")) return show(d.offer(v(x)));
    if (o.equals("poll")) return show(d.poll());
    if (o.equals("pollFirst")) return show(d.pollFirst());
    if (o.equals("pollLast")) return show(d.pollLast());
    if (o.equals("removeFirst")) return show(d.removeFirst());
    if (o.equals("pop")) return show(d.pop());
    if (o.equals("removeHead")) return show(d.remove());
    if (o.equals("removeLast")) return show(d.removeLast());
    if (o.equals("peek")) return show(d.peek());
    if (o.equals("peekFirst")) return show(d.peekFirst());
    if (o.equals("peekLast")) return show(d.peekLast());
    if (o.equals("getFirst")) return show(d.getFirst());
    if (o.equals("element")) return show(d.element());
    if (o.equals("getLast")) return show(d.getLast());
    if (kind.equals("stack")) {
      Stack<Integer> s = (Stack<Integer>) l;
      if (o.equals("spush")) return show(s.push(v(x)));
      if (o.equals("spop")) return show(s.pop());
      if (o.equals("speek")) return show(s.peek());
      if (o.equals("sempty")) return show(s.empty());
    }
    if (kind.equals("vector")) {
      Vector<Integer> w = (Vector<Integer>) l;
      if (o.equals("addElement")) { w.addElement(v(x)); return "0"; }
      if (o.equals("insertElementAt")) { w.insertElementAt(v(x), y); return "0"; }
      if (o.equals("elementAt")) return show(w.elementAt(x));
      if (o.equals("setElementAt")) { w.setElementAt(v(x), y); return "0"; }
      if (o.equals("removeElementAt")) { w.removeElementAt(x); return "0"; }
      if (o.equals("removeElement")) return show(w.removeElement(v(x)));
      if (o.equals("removeAllElements")) { w.removeAllElements(); return "0"; }
      if (o.equals("copyInto")) { Object[] r = new Object[w.size()]; w.copyInto(r); return show(r); }
      if (o.equals("clone")) {
        Vector<Integer> r = (Vector<Integer>) w.clone();
        String t = show(r.toArray());
        r.add(new Integer(99));
        return w.contains(new Integer(99)) ? "shared" : t;
      }
      if (o.equals("elements")) {
        int[] r = new int[w.size() + 1];
        int i = 0;
        for (Enumeration<Integer> e = w.elements(); e.hasMoreElements();) { Integer n = e.nextElement(); r[i++] = n == null ? -1 : n; }
        return list(r, i);
      }
    }
    if (o.equals("sort")) { if (l.size() % 2 == 0) Collections.sort(l, UP); else Collections.sort(l); return "0"; }
    if (o.equals("sortReverse")) { Collections.sort(l, l.size() % 2 == 0 ? DOWN : Collections.reverseOrder(UP)); return "0"; }
    if (o.equals("reverse")) { Collections.reverse(l); return "0"; }
    if (o.equals("shuffleSort")) { Collections.shuffle(l, new Random(l.size())); Collections.sort(l); return "0"; }
    if (o.equals("binarySearch")) { int r = Collections.binarySearch(l, v(x)); return found(r, r >= 0 ? l.get(r) : null); }
    Integer[] q = new Integer[c.size()];
    q = c.toArray(q);
    if (o.equals("arraySort")) {
      Integer[] r = Arrays.copyOf(q, q.length);
      Arrays.sort(r);
      Arrays.sort(q, UP);
      return Arrays.equals(q, r) ? show(r) : "differ";
    }
    if (o.equals("copyOf")) {
      Integer[] r = Arrays.copyOf(q, x);
      Object[] w = Arrays.copyOf(q, x, Object[].class);
      if (r.length != w.length) return "lengths";
      for (int i = 0; i < w.length; ++i) if (w[i] != r[i]) return "differ";
      return show(w);
    }
    int[] p = new int[q.length];
    for (int i = 0; i < p.length; ++i) p[i] = q[i] == null ? -1 : q[i];
    if (o.equals("arrayBinarySearch")) { int r = Arrays.binarySearch(p, x); return found(r, r >= 0 ? (Object) p[r] : null); }
    if (o.equals("arrayBinarySearchIn")) { int r = Arrays.binarySearch(p, y, z, x); return found(r, r >= 0 ? (Object) p[r] : null); }
    if (o.equals("fill")) {
      long[] w = new long[p.length];
      byte[] b = new byte[p.length];
      char[] ch = new char[p.length];
      for (int i = 0; i < p.length; ++i) { w[i] = p[i]; b[i] = (byte) p[i]; ch[i] = (char) p[i]; }
      Arrays.fill(w, x, y, (long) z);
      Arrays.fill(b, x, y, (byte) z);
      Arrays.fill(ch, x, y, (char) z);
      Arrays.fill(p, x, y, z);
      Arrays.fill(q, x, y, v(z));
      for (int i = 0; i < p.length; ++i) if (w[i] != p[i] || b[i] != p[i] || (short) ch[i] != p[i]) return "differ";
      return show(q);
    }
    if (o.equals("arrayEquals")) {
      // q against a copy of it with y at position x
      Integer[] r = new Integer[q.length];
      int[] pi = new int[q.length];
      for (int i = 0; i < r.length; ++i) { r[i] = i == x ? v(y) : q[i] == null ? null : new Integer(q[i]); pi[i] = i == x ? y : p[i]; }
      boolean e = Arrays.equals(q, r);
      if (Arrays.equals(p, pi) != e || Arrays.deepEquals(new Object[] {q}, new Object[] {r}) != e) return "differ";
      if (e && (Arrays.hashCode(q) != Arrays.hashCode(r) || ! Arrays.toString(p).equals(Arrays.toString(pi)))) return "hash";
      return show(e);
    }
    return "?" + o;
  }

  public static void main(String[] args) throws Throwable {
    verbose = args.length > 1;
    run(args[0], new ListsDriver());
  }
}
