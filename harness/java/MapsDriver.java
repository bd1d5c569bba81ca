import java.util.*;

/** Replays behaviours of Maps.tla on the collections of the class library. */
public class MapsDriver extends H {
  static int profile;

  static class Key implements Comparable<Key> {
    final int id;
    Key(int id) { this.id = id; }
    public boolean equals(Object o) { return o instanceof Key && ((Key) o).id == id; }
    public int hashCode() {
      switch (profile) {
      case 0: return id;
      case 1: return id % 4;
      case 2: return 7;
      case 3: return id * 16;
      case 4: return -id;
      case 5: return id * 0x9e3779b9;
      case 6: return id << 28 | (id & 1);
      default: return id / 3;
      }
    }
    public int compareTo(Key o) { return id - o.id; }
  }

  /** for the identity map: equal to others, but distinct */
  static class IKey {
    final int id;
    IKey(int id) { this.id = id; }
    public boolean equals(Object o) { return o instanceof IKey; }
    public int hashCode() { return 1; }
  }

  static class Entry implements Map.Entry {
    final Object k, v;
    Entry(Object k, Object v) { this.k = k; this.v = v; }
    public Object getKey() { return k; }
    public Object getValue() { return v; }
    public Object setValue(Object o) { throw new UnsupportedOperationException(); }
    public int hashCode() { return (k == null ? 0 : k.hashCode()) ^ (v == null ? 0 : v.hashCode()); }
    public boolean equals(Object o) {
      return o instanceof Map.Entry && eq(k, ((Map.Entry) o).getKey()) && eq(v, ((Map.Entry) o).getValue());
    }
  }

  static boolean eq(Object a, Object b) { return a == null ? b == null : a.equals(b); }

  static class Rev implements Comparator { public int compare(Object a, Object b) { return ((Key) b).id - ((Key) a).id; } }

  String kind;
  int K;
  boolean nullKey;
  boolean ordered;
  Map<Object, Object> m;
  AbstractSet<Object> s;
  avian.PersistentSet<Key> ps, snap;
  Object[] canon;

  Object k(int i) {
    if (nullKey && i == 0) return null;
    if (kind.equals("identity")) return canon[i];
    return new Key(i);
  }
  static final Integer[] ints = new Integer[64];
  static Object v(int i) {
    if (i < 0) return null;
    if (ints[i] == null) ints[i] = new Integer(i);
    return ints[i];
  }
  int idOf(Object k) { return k == null ? (nullKey ? 0 : -7) : k instanceof IKey ? ((IKey) k).id : ((Key) k).id; }
  static int valOf(Object v) { return v == null ? -1 : ((Integer) v).intValue(); }

  Map newMap() {
    if (kind.equals("hash")) return new HashMap();
    if (kind.equals("hash2")) return new HashMap(50);
    if (kind.equals("linked")) return new LinkedHashMap();
    if (kind.equals("tree")) return new TreeMap();
    if (kind.equals("treerev")) return new TreeMap(new Rev());
    if (kind.equals("hashtable")) return new Hashtable();
    if (kind.equals("identity")) return new IdentityHashMap();
    throw new Error(kind);
  }

  void begin(String[] h) {
    kind = h[0];
    K = num(h[1]);
    profile = num(h[2]);
    nullKey = num(h[3]) != 0;
    ordered = !(kind.equals("hash") || kind.equals("hash2") || kind.equals("hashtable") || kind.equals("identity")
                || kind.equals("hashset"));
    m = null; s = null; ps = null; snap = null; canon = null;
    if (kind.equals("hashset")) s = new HashSet();
    else if (kind.equals("linkedset")) s = new LinkedHashSet();
    else if (kind.equals("treeset")) s = new TreeSet();
    else if (kind.equals("treesetrev")) s = new TreeSet(new Rev());
    else if (kind.equals("pset")) { ps = new avian.PersistentSet(); snap = ps; }
    else {
      if (kind.equals("identity")) {
        canon = new Object[K];
        for (int i = 0; i < K; ++i) canon[i] = new IKey(i);
      }
      m = newMap();
    }
  }

  int[] buf = new int[1024];
  int n;
  void add(int x) { if (n < buf.length) buf[n++] = x; else throw new Error("too many elements"); }
  String res() { return list(buf, n); }

  String keys(Iterator it) {
    n = 0;
    while (it.hasNext()) add(idOf(it.next()));
    if (!ordered) sort(buf, n);
    return res();
  }

  String array(Object[] a) {
    n = 0;
    for (int i = 0; i < a.length; ++i) add(idOf(a[i]));
    if (!ordered) sort(buf, n);
    return res();
  }

  String entries(Map<Object, Object> m) {
    n = 0;
    for (Iterator<Map.Entry<Object, Object>> it = m.entrySet().iterator(); it.hasNext();) {
      Map.Entry<Object, Object> e = it.next();
      add(idOf(e.getKey()) * 64 + valOf(e.getValue()) + 1);
    }
    if (!ordered) sort(buf, n);
    int[] b = new int[n * 2];
    for (int i = 0; i < n; ++i) { b[2 * i] = buf[i] / 64; b[2 * i + 1] = buf[i] % 64 - 1; }
    return list(b, n * 2);
  }

  String values(Iterator it) {
    n = 0;
    while (it.hasNext()) add(valOf(it.next()));
    if (!ordered) sort(buf, n);
    return res();
  }

  static boolean in(int[] a, int x) {
    for (int i = 0; i < a.length; ++i) if (a[i] == x) return true;
    return false;
  }

  static String b(boolean x) { return x ? "true" : "false"; }
  static String val(Object v) { return "" + valOf(v); }

  ArrayList collection(int[] a) {
    ArrayList l = new ArrayList();
    for (int i = 0; i < a.length; ++i) l.add(k(a[i]));
    return l;
  }

  String op(String[] a) {
    String o = a[0];
    if (ps != null) return psop(a);
    if (s != null) return sop(a);
    if (o.equals("put")) return val(m.put(k(num(a[1])), v(num(a[2]))));
    if (o.equals("remove")) return val(m.remove(k(num(a[1]))));
    if (o.equals("get")) return val(m.get(k(num(a[1]))));
    if (o.equals("containsKey")) return b(m.containsKey(k(num(a[1]))));
    if (o.equals("containsValue")) return b(m.containsValue(v(num(a[1]))));
    if (o.equals("valuesContains")) return b(m.values().contains(v(num(a[1]))));
    if (o.equals("size")) {
      int z = m.size();
      if (m.keySet().size() != z || m.values().size() != z || m.entrySet().size() != z) return "view sizes differ";
      return "" + z;
    }
    if (o.equals("isEmpty")) {
      boolean e = m.isEmpty();
      if (m.keySet().isEmpty() != e || m.values().isEmpty() != e || m.entrySet().isEmpty() != e) return "view isEmpty differ";
      return b(e);
    }
    if (o.equals("clear")) { m.clear(); return "0"; }
    if (o.equals("putAll")) {
      int[] ks = nums(a[1]), vs = nums(a[2]);
      // an ordered source that does not depend on the class under test
      final ArrayList es = new ArrayList();
      for (int i = 0; i < ks.length; ++i) es.add(new Entry(k(ks[i]), v(vs[i])));
      m.putAll(new Pairs(es));
      return "0";
    }
    if (o.equals("keys")) return keys(m.keySet().iterator());
    if (o.equals("keyArray")) return array(m.keySet().toArray());
    if (o.equals("values")) return values(m.values().iterator());
    if (o.equals("entries")) return entries(m);
    if (o.equals("keySetContains")) return b(m.keySet().contains(k(num(a[1]))));
    if (o.equals("keySetRemove")) return b(m.keySet().remove(k(num(a[1]))));
    if (o.equals("entryContains")) return b(m.entrySet().contains(new Entry(k(num(a[1])), v(num(a[2])))));
    if (o.equals("entryRemove")) return b(m.entrySet().remove((Object) new Entry(k(num(a[1])), v(num(a[2])))));
    if (o.equals("viewClear")) {
      int w = num(a[1]);
      if (w == 0) m.keySet().clear(); else if (w == 1) m.values().clear(); else m.entrySet().clear();
      return "0";
    }
    if (o.equals("iterRemove")) {
      int w = num(a[1]);
      return iterRemove(w == 0 ? (Iterator) m.keySet().iterator() : (Iterator) m.entrySet().iterator(), w == 1, num(a[2]), nums(a[3]));
    }
    if (o.equals("iterRemoveValue")) {
      int w = num(a[1]), c = 0;
      for (Iterator it = m.values().iterator(); it.hasNext();) if (valOf(it.next()) == w) { it.remove(); ++c; }
      return "" + c;
    }
    if (o.equals("iterSet")) {
      int w = num(a[1]);
      int[] S = nums(a[2]);
      n = 0;
      for (Iterator<Map.Entry<Object, Object>> it = m.entrySet().iterator(); it.hasNext();) {
        Map.Entry<Object, Object> e = it.next();
        if (in(S, idOf(e.getKey()))) add(valOf(e.setValue(v(w))));
      }
      sort(buf, n);
      return res();
    }
    if (o.equals("iterBad")) return iterBad(num(a[1]), m.keySet().iterator());
    if (o.equals("iterDouble")) return iterDouble(m.keySet().iterator());
    if (o.equals("copy")) {
      Map c;
      if (kind.equals("hash")) c = new HashMap(m);
      else if (kind.equals("linked")) c = new LinkedHashMap(m);
      else if (kind.equals("hashtable")) c = new Hashtable(m);
      else { c = newMap(); c.putAll(m); }
      String r = entries(c);
      c.clear();
      return r;
    }
    TreeMap t = (TreeMap) m;
    if (o.equals("firstKey")) return "" + idOf(t.firstKey());
    if (o.equals("lastKey")) return "" + idOf(t.lastKey());
    if (o.equals("firstEntry")) return entry(t.firstEntry());
    if (o.equals("lastEntry")) return entry(t.lastEntry());
    throw new Error(o);
  }

  static class Pairs extends AbstractMap {
    final ArrayList es;
    Pairs(ArrayList es) { this.es = es; }
    public Set entrySet() {
      return new AbstractSet() {
        public int size() { return es.size(); }
        public Iterator iterator() { return es.iterator(); }
      };
    }
    public boolean isEmpty() { return es.size() == 0; }
    public int size() { return es.size(); }
    public boolean containsKey(Object o) { throw new Error(); }
    public boolean containsValue(Object o) { throw new Error(); }
    public Object get(Object o) { throw new Error(); }
    public Object put(Object o, Object x) { throw new Error(); }
    public void putAll(Map o) { throw new Error(); }
    public Object remove(Object o) { throw new Error(); }
    public void clear() { throw new Error(); }
    public Set keySet() { throw new Error(); }
    public Collection values() { throw new Error(); }
  }

  String entry(Map.Entry e) {
    if (e == null) return "[]";
    return "[" + idOf(e.getKey()) + "," + valOf(e.getValue()) + "]";
  }

  String iterRemove(Iterator it, boolean entry, int h, int[] S) {
    n = 0;
    while (true) {
      boolean more = it.hasNext();
      for (int i = 0; i < h; ++i) if (it.hasNext() != more) return "hasNext changes";
      if (!more) break;
      Object x = it.next();
      int id = idOf(entry ? ((Map.Entry) x).getKey() : x);
      add(id);
      if (in(S, id)) {
        if (h == 2) it.hasNext();
        it.remove();
      }
    }
    if (!ordered) sort(buf, n);
    return res();
  }

  String iterBad(int w, Iterator it) {
    if (w == 0) { it.remove(); return "no exception"; }
    if (w == 1) { while (it.hasNext()) it.next(); return "" + it.next(); }
    // remove before next on an iterator whose hasNext was called
    if (!it.hasNext()) return "" + it.next();
    it.remove();
    return "no exception";
  }

  String iterDouble(Iterator it) {
    it.next();
    it.remove();
    it.remove();
    return "no exception";
  }

  String sop(String[] a) {
    String o = a[0];
    if (o.equals("add")) return b(s.add(k(num(a[1]))));
    if (o.equals("sremove")) return b(s.remove(k(num(a[1]))));
    if (o.equals("contains")) return b(s.contains(k(num(a[1]))));
    if (o.equals("size")) return "" + s.size();
    if (o.equals("isEmpty")) return b(s.isEmpty());
    if (o.equals("clear")) { s.clear(); return "0"; }
    if (o.equals("elems")) return keys(s.iterator());
    if (o.equals("toArray")) return array(s.toArray());
    if (o.equals("addAll")) return b(s.addAll(collection(nums(a[1]))));
    if (o.equals("removeAll")) return b(s.removeAll(collection(nums(a[1]))));
    if (o.equals("containsAll")) return b(s.containsAll(collection(nums(a[1]))));
    if (o.equals("iterRemove")) return iterRemove(s.iterator(), false, num(a[2]), nums(a[3]));
    if (o.equals("iterBad")) return iterBad(num(a[1]), s.iterator());
    if (o.equals("iterDouble")) return iterDouble(s.iterator());
    if (o.equals("copy")) {
      AbstractSet c;
      if (kind.equals("hashset")) c = new HashSet(s);
      else if (kind.equals("linkedset")) c = new LinkedHashSet(s);
      else if (kind.equals("treeset")) c = new TreeSet(s);
      else { c = new TreeSet(new Rev()); c.addAll(s); }
      n = 0;
      for (Iterator it = c.iterator(); it.hasNext();) { add(idOf(it.next())); add(0); }
      if (!ordered) {
        String r;
        int q = 0;
        for (int i = 0; i < n; i += 2) buf[q++] = buf[i];
        sort(buf, q);
        for (int i = q - 1; i >= 0; --i) { buf[2 * i] = buf[i]; buf[2 * i + 1] = 0; }
      }
      c.clear();
      return res();
    }
    TreeSet t = (TreeSet) (Object) s;
    if (o.equals("descending")) return keys(t.descendingIterator());
    if (o.equals("first")) return "" + idOf(t.first());
    if (o.equals("last")) return "" + idOf(t.last());
    throw new Error(o);
  }

  String psop(String[] a) {
    String o = a[0];
    if (o.equals("add")) {
      int z = ps.size();
      Key x = new Key(num(a[1]));
      avian.PersistentSet<Key> old = ps;
      ps = (a[1].length() & 1) == 0 ? ps.add(x) : ps.add(x, true);
      if (old.size() != z) return "old version changed size";
      return b(ps.size() != z);
    }
    if (o.equals("sremove")) {
      int z = ps.size();
      ps = ps.remove(new Key(num(a[1])));
      return b(ps.size() != z);
    }
    if (o.equals("contains")) return b(!ps.find(new Key(num(a[1]))).fresh());
    if (o.equals("size")) return "" + ps.size();
    if (o.equals("elems")) return keys(ps.iterator());
    if (o.equals("snapshot")) { snap = ps; return "0"; }
    if (o.equals("snapElems")) return keys(snap.iterator());
    if (o.equals("neighbour")) {
      avian.PersistentSet.Path<Key> p = ps.find(new Key(num(a[1])));
      if (p.fresh()) return "[]";
      avian.PersistentSet.Path<Key> x = p.predecessor(), y = p.successor();
      return "[" + (x == null ? -1 : idOf(x.value())) + "," + (y == null ? -1 : idOf(y.value())) + "]";
    }
    throw new Error(o);
  }

  public static void main(String[] args) throws Throwable {
    verbose = args.length > 1;
    run(args[0], new MapsDriver());
  }
}
