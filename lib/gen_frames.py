"""Generates Frames.java: methods with different local variable layouts, all running the same operation loop."""

BODY = r'''
    try {
    while (true) {
      String[] o = first[me];
      if (o != null) first[me] = null; else o = GraphDriver.nextOp(me);
      if (o == null) throw new GraphDriver.Over();
      String op = o[1];
      if (op.equals("call")) {
        Object x, y, z;
        x = GraphDriver.sel(GraphDriver.num(o[3]), $a, $b, $c);
        y = GraphDriver.sel(GraphDriver.num(o[4]), $a, $b, $c);
        z = GraphDriver.sel(GraphDriver.num(o[5]), $a, $b, $c);
        GraphDriver.result(0);
        int kind = GraphDriver.num(o[2]);
        $depth
        Object _r;
        try {
          $drop
          _r = GraphDriver.call(kind, me, x, y, z);
        } catch (GraphDriver.Carrier e) {
          if (--e.left > 0) throw e;
          _r = e.o;
          slots[me] = e.slot;
        }
        $check
        switch (slots[me]) { case 1: $a = _r; break; case 2: $b = _r; break; default: $c = _r; }
        GraphDriver.locals($a, $b, $c);
      } else if (op.equals("ret")) {
        Object _r = GraphDriver.sel(GraphDriver.num(o[2]), $a, $b, $c);
        slots[me] = GraphDriver.num(o[3]);
        $check
        return _r;
      } else if (op.equals("throw")) {
        Object _r = GraphDriver.sel(GraphDriver.num(o[2]), $a, $b, $c);
        throw new GraphDriver.Carrier(_r, GraphDriver.num(o[4]), GraphDriver.num(o[3]));
      } else if (op.equals("dump")) {
        GraphDriver.dump($a, $b, $c);
      } else {
        Object _r = GraphDriver.simple(o, $a, $b, $c);
        switch (GraphDriver.slot) { case 0: break; case 1: $a = _r; break; case 2: $b = _r; break; default: $c = _r; }
      }
      $keep
    }
    } catch (RuntimeException e) { throw e; } catch (Error e) { throw e; } catch (Exception e) { throw new RuntimeException(e); }
'''

def frame(sig, pre, a, b, c, check='', wrap=('', ''), depth='', drop='', keep=''):
    body = BODY
    for k, v in dict(depth=depth, drop=drop, check=check, keep=keep).items():
        body = body.replace('$' + k, v)
    for k, v in dict(a=a, b=b, c=c).items():
        body = body.replace('$' + k, v)
    return '  %s {\n%s%s%s%s\n  }\n' % (sig, pre, wrap[0], body, wrap[1])

def frames():
    s = '''/** generated by lib/gen_frames.py */
public class Frames {
  static String[][] first = new String[8][];
  static int[] slots = new int[8];
  interface I { Object f5(long p, Object a, long q, Object b, long r, Object c, long s, int me); }
  static Object impl = new Impl();
  static void bad(String m) { throw new Error("local changed: " + m); }
'''
    s += frame('static Object f0(int me, Object a, Object b, Object c)', '', 'a', 'b', 'c')
    s += frame('static Object f1(int me, int p, Object a, long q, Object b, double r, Object c, float s)',
               '    long k = q * 3;\n', 'a', 'b', 'c',
               check='if (p != 11 || q != 22L || r != 3.5 || s != 4.5f || k != 66L) bad("f1");')
    s += frame('synchronized Object f2(Object c, int me, Object b, Object a)',
               '    int w = me * 7; Object[] keep = new Object[] { this }; Object unused = null;\n', 'a', 'b', 'c',
               check='if (w != me * 7 || keep[0] != this) bad("f2");')
    s += frame('static Object f3(int me, Object[] l)', '    Object[] m = l; String tag = "f3" + me;\n', 'm[0]', 'm[1]', 'm[2]',
               check='if (m != l || m.length != 3 || !tag.equals("f3" + me)) bad("f3");')
    s += frame('static Object f4(int me, Object p0, Object p1, Object p2)',
               '''    Object a = p0, c, b; long pad = me; 
    if (me > 100) { c = "x"; b = null; } else { c = p2; b = p1; }
    p0 = null; p1 = null; p2 = null;
    Object monitor = new Object(); int count = 0;
''', 'a', 'b', 'c', check='if (pad != me) bad("f4");', wrap=('    synchronized (monitor) { try {\n', '    } finally { if (pad != me) bad("f4 finally"); ++count; } }\n'),
               keep='if (count != 0) bad("f4 count");')
    s += '''  static class Impl implements I {
    Object mine = new int[] { 42 };
'''
    s += frame('public Object f5(long p, Object a, long q, Object b, long r, Object c, long s, int me)', '', 'a', 'b', 'c',
               check='if (p != 1 || q != 2 || r != 3 || s != 4 || ((int[]) mine)[0] != 42) bad("f5");')
    s += '  }\n}\n'
    return s

def big():
    out = ['  static class B extends Obj {']
    kinds = ['byte', 'long', 'int', 'double', 'short', 'char']
    vals = {'byte': '(byte) %d', 'long': '%dL', 'int': '%d', 'double': '%d.5', 'short': '(short) %d', 'char': '(char) %d'}
    ok = []
    for i in range(70):
        if i % 3 == 1:
            k = kinds[(i // 3) % len(kinds)]
            out.append('    %s p%d = %s;' % (k, i, vals[k] % (i + 1)))
            ok.append('p%d == %s' % (i, vals[k] % (i + 1)))
        out.append('    Object r%d;' % i)
    out.append('    boolean ok() { return %s; }' % ' && '.join(ok))
    out.append('    Object get(int i) { switch (i) {' + ''.join(' case %d: return r%d;' % (i, i) for i in range(70)) + ' } throw new Error(); }')
    out.append('    void set(int i, Object x) { switch (i) {' + ''.join(' case %d: r%d = x; return;' % (i, i) for i in range(70)) + ' } throw new Error(); }')
    out.append('  }')
    return '\n'.join(out)
