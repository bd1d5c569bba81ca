"""Behaviours of Unwind.tla as Java programs, and the log each must write."""
import json, os
import vm

PTYPES = ['int', 'long', 'double', 'String', 'float', 'byte']

def pval(i, k):
    t = PTYPES[i % 6]
    v = (k * 7 + i) % 100
    return {'int': str(v), 'long': '%dL' % v, 'double': '%d.5' % v, 'String': 'Rt.str(%d)' % v, 'float': '%d.25f' % v, 'byte': '(byte) %d' % v}[t]

def peq(i, k):
    t = PTYPES[i % 6]
    return 'p%d.equals(%s)' % (i, pval(i, k)) if t == 'String' else 'p%d == %s' % (i, pval(i, k))

FAULTS = {
    'NullPointerException': ['Rt.sink = Rt.nulArray.length;', 'Rt.sink = Rt.nulArray[0];', 'Rt.sink = ((String) Rt.nul).length();', 'synchronized (Rt.nul) { Rt.sink = 1; }',
                             'if (Rt.T) throw (RuntimeException) Rt.nul;', 'Rt.nulArray[1] = 2;'],
    'ArithmeticException': ['Rt.sink = (int) a / Rt.zero;', 'Rt.sink = (int) a % Rt.zero;', 'Rt.sink = (int) (b / Rt.zeroL);', 'Rt.sink = (int) (b % Rt.zeroL);',
                            'Rt.sink = 5 + 3 * (a / Rt.zero);', 'b = b / Rt.zeroL;'],
    'ClassCastException': ['Rt.sink = ((Integer) Rt.text).intValue();', 'Rt.three = (int[]) Rt.text;', 'Rt.nul = (Runnable) Rt.text;', 'Rt.nul = (Object[]) Rt.text;',
                           'Rt.nul = (String[]) (Object) Rt.three;', 'Rt.sink = 3 + ((Integer) Rt.text).intValue();'],
    'ArrayStoreException': ['Rt.texts[0] = Rt.three;'] * 5 + ['System.arraycopy(new Object[] { Rt.three }, 0, Rt.texts, 0, 1);'],
    'NegativeArraySizeException': ['Rt.three = new int[Rt.minus];', 'Rt.nul = new Object[Rt.minus];', 'Rt.nul = new int[2][Rt.minus];', 'Rt.nul = new String[Rt.minus][2];',
                                   'Rt.nul = new byte[Rt.minus];', 'Rt.nul = new long[Rt.minus];'],
    'ArrayIndexOutOfBoundsException': ['Rt.sink = Rt.three[3];', 'Rt.sink = Rt.three[Rt.minus];', 'Rt.three[3] = (int) a;', 'Rt.nul = Rt.texts[Rt.minus];', 'Rt.texts[2] = s;', 'Rt.sink = 4 * Rt.three[5] + 1;'],
}

def cls(t):
    if t in ('E0', 'E1', 'E2', 'E3', 'R0'): return 'Rt.' + t
    if t == 'InvocationTargetException': return 'java.lang.reflect.InvocationTargetException'
    return t

class Node:
    def __init__(self, c, id, **kw):
        self.c, self.id = c, id
        self.body = []
        self.__dict__.update(kw)

def see(x):
    return '%s:%s' % (','.join(map(str, x[0])), ''.join(map(str, x[1])))

def desc(d):
    out = []
    i = 0
    while i < len(d):
        if d[i] in ('E0', 'E1', 'E2', 'E3', 'R0'):
            out.append(d[i] + '#' + d[i + 1]); i += 2
        else:
            out.append(d[i]); i += 1
    return '<'.join(out)

def build(hist, p):
    """program number p of its class: returns (methods, classes, interface methods, log)"""
    root = Node('call', 0, kind='static', np=0, mon=0, ls=[1, 2, 3])
    stack = [root]
    block = {0: root.body}
    log = []
    calls = [root]
    def cur():
        return stack[-1].block if hasattr(stack[-1], 'block') else stack[-1].body
    for e in hist:
        op = e[0]
        if op == 'log':
            cur().append(('log', e[1])); log.append('L%d:%s' % (e[1], see(e[2])))
        elif op == 'assign': cur().append(('assign', e[2], e[3]))
        elif op == 'try':
            x = Node('try', e[1], types=e[2], fin=e[3], catches={}, finblk=[])
            cur().append(('node', x)); stack.append(x)
        elif op == 'sync':
            x = Node('sync', e[1], mon=e[2]); cur().append(('node', x)); stack.append(x)
        elif op == 'call':
            x = Node('call', e[1], kind=e[2], mon=e[3], np=e[4], ls=e[5]); cur().append(('node', x)); stack.append(x); calls.append(x)
        elif op in ('throw', 'fault', 'return', 'rethrow'):
            cur().append(tuple(e[:1]) + tuple(e[2:]) if op != 'throw' else ('throw', e[2], e[1]))
        elif op == 'finally':
            x = stack[-1]; assert x.id == e[1], e
            x.block = x.finblk; log.append('F%d' % e[1])
        elif op == 'catch':
            x = stack[-1]; assert x.id == e[1], e
            x.j = e[2]; x.block = x.catches[e[2]] = []
            log.append('C%d/%d:%s:%s:%s' % (e[1], e[2], desc(e[3]), ''.join('.%d' % f for f in e[4]), see(e[5])))
        elif op in ('end', 'leave', 'returned'):
            x = stack.pop(); assert x.id == e[1], e
            if op == 'returned' and x.kind != 'tail': log.append('R%d=%d' % (e[1], 0 if x.kind == 'constructor' else e[2]))
        elif op == 'last': pass
        elif op == 'exit':
            log.append('X%s:%s' % (':' + desc(e[1]) if e[1] else '=%d' % e[2], ''.join(map(str, e[3]))))
    return calls, log

def size(b, outer=0):
    """about how many statements a compiler makes of this block: finally blocks are copied to every way out"""
    n = 0
    for s in b:
        if s[0] == 'return': n += 1 + outer
        elif s[0] != 'node': n += 1
        else:
            x = s[1]
            if x.c == 'call': n += 2 + x.np + (outer if x.kind == 'tail' else 0)
            elif x.c == 'sync': n += 3 + size(x.body, outer + 1)
            else:
                f = size(x.finblk, outer) + 1 if x.fin else 0
                n += size(x.body, outer + f) + sum(1 + size(h, outer + f) for h in x.catches.values()) + f * (2 + len(x.types))
    return n

def fits(hist):
    return max(size(x.body) for x in build(hist, 0)[0]) < 1200

def pre(p, k):
    return p * 1000 + k

def emit_block(out, b, p, ind, ctor, handler=None):
    sp = '  ' * ind
    for s in b:
        op = s[0]
        if op == 'log': out.append(sp + 'Rt.log(%d, a, b, s, M);' % s[1])
        elif op == 'assign': out.append(sp + ['a = %d;', 'b = %d;', 's = Rt.str(%d);'][s[1] - 1] % s[2])
        elif op == 'throw': out.append(sp + 'if (Rt.T) throw new Rt.%s("%d");' % (s[1], s[2]))
        elif op == 'fault': out.append(sp + FAULTS[s[1]][s[2]])
        elif op == 'rethrow': out.append(sp + 'if (Rt.T) throw %s;' % handler)
        elif op == 'return': out.append(sp + 'if (Rt.T) return;' if ctor else 'if (Rt.T) return %d;' % s[1])
        else:
            x = s[1]
            if x.c == 'sync':
                out.append(sp + 'synchronized (M[%d]) {' % (x.mon - 1))
                emit_block(out, x.body, p, ind + 1, ctor, handler)
                out.append(sp + '}')
            elif x.c == 'try':
                out.append(sp + 'try {')
                if not x.body: out.append(sp + '  Rt.sink = %d;' % x.id)
                emit_block(out, x.body, p, ind + 1, ctor, handler)
                for j, t in enumerate(x.types, 1):
                    if t == 'InvocationTargetException':  # checked: only where it can be thrown
                        out.insert(len(out), sp + '  if (! Rt.T) throw new java.lang.reflect.InvocationTargetException(null);')
                for j, t in enumerate(x.types, 1):
                    v = 'e%d_%d' % (x.id, j)
                    out.append(sp + '} catch (%s %s) {' % (cls(t), v))
                    if j in x.catches:
                        out.append(sp + '  Rt.caught(%d, %d, %s, a, b, s, M);' % (x.id, j, v))
                        emit_block(out, x.catches[j], p, ind + 1, ctor, v)
                    else: out.append(sp + '  Rt.never(%d);' % x.id)
                if x.fin:
                    out.append(sp + '} finally {')
                    out.append(sp + '  Rt.fin(%d);' % x.id)
                    emit_block(out, x.finblk, p, ind + 1, ctor, handler)
                out.append(sp + '}')
            else:
                k = pre(p, x.id)
                args = ['%d' % x.ls[0], '%dL' % x.ls[1], 'Rt.str(%d)' % x.ls[2]] + [pval(i, x.id) for i in range(x.np)]
                al = ', '.join(args)
                recv = 'M%d' % x.mon
                kind = x.kind
                how = kind if kind != 'tail' else ['static', 'virtual', 'interface', 'special'][x.id % 4]
                if kind == 'constructor': e = 'new C_%d(%s).r' % (k, al)
                elif kind == 'reflectStatic': e = '((Integer) Rt.call(G.class, "m_%d", null, new Object[] { %s })).intValue()' % (k, al)
                elif kind == 'reflectVirtual': e = '((Integer) Rt.call(G.class, "m_%d", %s, new Object[] { %s })).intValue()' % (k, recv, al)
                elif how in ('virtual', 'syncVirtual'): e = '%s.m_%d(%s)' % (recv, k, al)
                elif how == 'interface': e = '((I) %s).im_%d(%s)' % (recv, k, al)
                elif how == 'special': e = '%s.pm_%d(%s)' % (recv, k, al)
                else: e = 'm_%d(%s)' % (k, al)
                if kind == 'tail': out.append(sp + ('if (Rt.T) { Rt.sink = %s; return; }' if ctor else 'if (Rt.T) return %s;') % e)
                elif x.id % 3 == 0: out.append(sp + 'Rt.sink = 2 * (%d + Rt.ret(%d, %s));' % (x.id, x.id, e))
                else: out.append(sp + 'Rt.ret(%d, %s);' % (x.id, e))

def source(pkg, hists):
    """one class holding the programs; returns (java source, logs)"""
    ms, cs, im, logs, main = [], [], [], [], []
    for p, hist in enumerate(hists):
        calls, log = build(hist, p)
        logs.append(log)
        for x in calls:
            k = pre(p, x.id)
            params = ', '.join(['int a', 'long b', 'String s'] + ['%s p%d' % (PTYPES[i % 6], i) for i in range(x.np)])
            how = x.kind if x.kind != 'tail' else ['static', 'virtual', 'interface', 'special'][x.id % 4]
            ctor = how == 'constructor'
            out = []
            if x.np: out.append('    Rt.args(%d, %s);' % (x.id, ' && '.join(peq(i, x.id) for i in range(x.np))))
            emit_block(out, x.body, p, 2, ctor)
            if ctor:
                cs.append('  static class C_%d {\n    int r;\n    C_%d(%s) throws Throwable {\n%s\n    }\n  }' % (k, k, params, '\n'.join(out)))
                continue
            mod = {'static': 'static', 'reflectStatic': 'public static', 'syncStatic': 'static synchronized', 'virtual': '', 'reflectVirtual': 'public', 'syncVirtual': 'synchronized',
                   'interface': 'public', 'special': 'private'}[how]
            name = {'interface': 'im_%d', 'special': 'pm_%d'}.get(how, 'm_%d') % k
            if how == 'interface': im.append('    int %s(%s) throws Throwable;' % (name, params))
            ms.append('  %s int %s(%s) throws Throwable {\n%s\n    return a;\n  }' % (mod, name, params, '\n'.join(out)))
        main.append('    case %d: try { int v = m_%d(1, 2L, Rt.str(3)); Rt.exit(null, v, M); } catch (Throwable e) { Rt.exit(e, 0, M); } return;' % (p, pre(p, 0)))
    src = ('package %s;\nimport rt.Rt;\ninterface I {\n%s\n}\npublic class G implements I, Rt.Program {\n'
           '  static G M1 = new G(), M2 = new G(), M3 = new G();\n  static Object[] M = { M1, M2, M3, G.class };\n%s\n%s\n'
           '  public void run(int i) throws Throwable {\n    switch (i) {\n%s\n    }\n  }\n}\n') % (pkg, '\n'.join(im), '\n'.join(cs), '\n'.join(ms), '\n'.join(main))
    return src, logs

def programs(build, hists, tmp, per=20):
    """(class directory, behaviours for a Replayer of rt.Rt)"""
    hists = [h for h in hists if fits(h)]
    out = os.path.join(tmp, 'classes')
    srcs = [vm.VERIF + '/harness/java/rt/Rt.java']
    behs = []
    for k in range(0, len(hists), per):
        pkg = 'p%03d' % (k // per)
        src, logs = source(pkg, hists[k:k + per])
        d = os.path.join(tmp, 'src', pkg)
        os.makedirs(d)
        with open(d + '/G.java', 'w') as f: f.write(src)
        srcs.append(d + '/G.java')
        for i, log in enumerate(logs):
            hist = hists[k + i]
            behs.append(('%s %d' % (pkg, i), [(' '.join(map(str, ['program', json.dumps(hist)] if j == 0 else [])) or 'log', e) for j, e in enumerate(log)]))
    os.makedirs(out)
    vm.javac_to(build, srcs, out)
    return out, behs
