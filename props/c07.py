"""C07: dispatch, type tests and member lookup (Hierarchy.tla) in generated class hierarchies."""
import os, struct
import vm, tlc, asm
from ctx import Replayer, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of method and field lookup, the subtype relation and field state (Hierarchy.tla): TLC checks every hierarchy of 3 types '
             'exhaustively, and TLC-generated hierarchies with questions are turned into class files and run on the real VM')
NOTE = ('Exhaustive at the specification level for all hierarchies of 3 types (4 for fields); on the implementation side hundreds of random hierarchies of 9 '
        'classes and interfaces with 60 calls, tests, stores and field accesses each, every answer and every final field value compared, compiled and '
        'interpreted and with a collection at every allocation. Sampling, not proof, on the implementation side. Ambiguous lookups, access checks and '
        'package-private methods are left out.')
CONFIGS = ['jit', 'interp', 'jit-stress']

SIG = dict(a=('a', '()I'), b=('b', '(I)I'), d=('d', '(JD)J'), h=('hashCode', '()I'))
PRIM = {100: 'Z', 101: 'B', 102: 'C', 103: 'S', 104: 'I', 105: 'J', 106: 'F', 107: 'D'}
BOX = dict(Z='Boolean', B='Byte', C='Character', S='Short', I='Integer', J='Long', F='Float', D='Double')
NEWT = dict(Z=4, C=5, F=6, D=7, B=8, S=9, I=10, J=11)
OBJ = 'java/lang/Object'
STR = 'Ljava/lang/String;'
ERR = {-9: 'NoSuchMethodError', -7: 'AbstractMethodError', -5: 'NullPointerException'}

def ident(m, n): return m * 10 + 'abdh'.index(n) + 1
def res(m, n):
    v = ident(m, n)
    return v + 7000 if n == 'b' else v + 14000 if n == 'd' else v

def num(t, v):
    """as Vals.out prints it"""
    if t == 'L': return 'S%s,' % (v if v else 'null')
    if t == 'Z': v &= 1
    if t == 'J': return 'J%016x,' % (v & (1 << 64) - 1)
    if t in 'FD':
        if v == 0: return t + '0,'
        m, e = abs(v), 0
        while m % 2 == 0: m, e = m // 2, e + 1
        return '%s%s%de%d,' % (t, '-' if v < 0 else '', m, e)
    return 'I%08x,' % (v & 0xffffffff)

def desc(t): return STR if t == 'L' else t

def program(P, b):
    ty = b['ty']
    def nm(i): return {0: OBJ, -1: 'java/lang/Cloneable', -2: 'java/io/Serializable'}.get(i) or '%s_T%d' % (P, i)
    ks = {}
    for i, t in enumerate(ty, 1):
        k = asm.Class(nm(i), nm(t['sup']), [nm(x) for x in t['ifs']], dict([('class', 0x21), ('abs', 0x421), ('iface', 0x601)])[t['k']], 52 if t['k'] == 'iface' else 49)
        if t['k'] != 'iface': k.constructor()
        for n, how in sorted(t['ms'].items()):
            if how == 'none': continue
            c = k.code()
            name, d = SIG[n]
            v = ident(i, n)
            if n == 'b':
                c.op(0x1b, 0x11, 1000 >> 8, 1000 & 255, 0x68, 0x11, v >> 8, v, 0x60, 0xac)
            elif n == 'd':
                # id + j * 1000 + (long) d * 1000
                c.op(0x1f, 0x29, 0x8f, 0x61, 0x11, 1000 >> 8, 1000 & 255, 0x85, 0x69, 0x11, v >> 8, v, 0x85, 0x61, 0xad)
            else:
                c.op(0x11, v >> 8, v, 0xac)
            k.method(name, d, {'decl': 1, 'abs': 0x401, 'priv': 2}[how], None if how == 'abs' else c, 8, 6)
        for j, f in enumerate(t['fs'], 1):
            val = None
            if f['cv']:
                cv = f['cv']
                p = k.p
                val = {'L': lambda: p.string(str(cv)), 'J': lambda: p.long(struct.pack('>q', cv)), 'F': lambda: p.float(struct.pack('>f', cv)),
                       'D': lambda: p.double(struct.pack('>d', cv)), 'Z': lambda: p.int(struct.pack('>i', cv & 1))}.get(f['t'], lambda: p.int(struct.pack('>i', cv)))()
            k.field('f%d' % j, desc(f['t']), 0x19 if t['k'] == 'iface' else (9 if f['st'] else 1) | (0x40 if (i + j) % 3 == 0 else 0), val)
        ks[i] = k
    main = asm.Class(P, interfaces=['java/lang/Runnable'], version=49)
    main.constructor()
    concrete = [i for i, t in enumerate(ty, 1) if t['k'] == 'class']
    for i in concrete: main.field('o%d' % i, 'L%s;' % nm(i), 9)

    def out(c, t): c.u2(0xb8, c.p.method('Vals', 'out', '(%s)V' % (STR if t == 'L' else 'I' if t in 'ZBCSI' else t)))
    def bool_(v): return num('I', int(v))
    def const(c, t, v):
        if t == 'Z': v &= 1
        if t == 'C' and v > 32767: c.op(0x11, v >> 8, v, 0x92)
        else: c.op(0x11, v >> 8, v)
        if t in 'JFD': c.op({'J': 0x85, 'F': 0x86, 'D': 0x87}[t])
        if t == 'L': c.u2(0xb8, c.p.method('java/lang/String', 'valueOf', '(I)' + STR))
    def obj(c, r):
        if r == 0: c.op(1)
        else: c.u2(0xb2, c.p.field(P, 'o%d' % r, 'L%s;' % nm(r)))
    def tname(x):
        """as it is written in a class reference"""
        base, d = x
        if d == 0: return nm(base)
        return '[' * d + (PRIM[base] if base in PRIM else 'L%s;' % nm(base))
    def value(c, x, odd):
        base, d = x
        if d == 0:
            if base == 0:
                c.u2(0xbb, c.p.cls(OBJ)); c.op(0x59); c.u2(0xb7, c.p.method(OBJ, '<init>', '()V'))
            else: obj(c, base)
        elif d == 1 and base in PRIM: c.op(4, 0xbc, NEWT[PRIM[base]])
        elif d == 2 and odd: c.op(4, 4, 0xc5); c.b += struct.pack('>HB', c.p.cls(tname(x)), 2)
        else: c.op(4); c.u2(0xbd, c.p.cls(tname((base, d - 1))))
    def cls(c, x):
        if x[1] == 0 and x[0] in PRIM: c.u2(0xb2, c.p.field('java/lang/' + BOX[PRIM[x[0]]], 'TYPE', 'Ljava/lang/Class;'))
        else: c.u2(0x13, c.p.cls(tname(x)))
    def call(c, opc, owner, n, m, iface=False):
        name, d = SIG[n]
        if n == 'b': c.op(0x10, 7)
        if n == 'd': c.op(0x10, 8, 0x85, 0x10, 6, 0x87)
        i = c.p.imethod(owner, name, d) if iface else c.p.method(owner, name, d)
        c.u2(opc, i)
        if opc == 0xb9: c.op({'a': 1, 'b': 2, 'd': 5, 'h': 1}[n], 0)
        if m == 0: # Object.hashCode
            c.op(0x3b)
            return 'Z'
        out(c, 'J' if n == 'd' else 'I')
    def expect(m, n): return 'X%s,' % ERR[m] if m in ERR else num('I', 0) if m == 0 else num('J' if n == 'd' else 'I', res(m, n))

    exp, calls = [], []
    for q, (op, a, r) in enumerate(b['hist']):
        if op == 'end': break
        home, k = P, main
        if op in ('super', 'isuper', 'priv'): home, k = nm(a[0]), ks[a[0]]
        c = k.code()
        if op in ('virt', 'iface', 'super', 'isuper', 'priv'):
            n, rc = (a[2], a[3]) if op == 'isuper' else (a[1], a[2])
            obj(c, rc)
            z = call(c, {'virt': 0xb6, 'iface': 0xb9}.get(op, 0xb7), nm(a[3] if op == 'super' else a[1] if op == 'isuper' else a[0]), n, r, op in ('iface', 'isuper'))
            if z:
                obj(c, rc)
                c.u2(0xb8, c.p.method('java/lang/System', 'identityHashCode', '(L%s;)I' % OBJ))
                c.op(0x1a, 0x64); out(c, 'I')
            e = expect(r, n)
        elif op == 'inst':
            value(c, a[0], q & 1); c.u2(0xc1, c.p.cls(tname(a[1]))); out(c, 'I'); e = bool_(r)
        elif op == 'cast':
            value(c, a[0], q & 1); c.u2(0xc0, c.p.cls(tname(a[1]))); c.op(0x57, 4); out(c, 'I'); e = bool_(1) if r else 'XClassCastException,'
        elif op == 'store':
            c.op(4); c.u2(0xbd, c.p.cls(tname(a[1]))); c.op(3); value(c, a[0], q & 1); c.op(0x53, 4); out(c, 'I'); e = bool_(1) if r else 'XArrayStoreException,'
        elif op == 'copy':
            c.op(5); c.u2(0xbd, c.p.cls(tname(a[1]))); c.op(0x4b)
            for x in 3, 4: c.op(0x2a, x); value(c, a[0], q & 1); c.op(0x53)
            c.op(5); c.u2(0xbd, c.p.cls(tname(a[2]))); c.op(0x4c)
            c.op(0x2a, 3, 0x2b, 3, 5)
            c.u2(0xb8, c.p.method('java/lang/System', 'arraycopy', '(L%s;IL%s;II)V' % (OBJ, OBJ)))
            for x in 3, 4:
                c.op(0x2a, x, 0x32, 0x2b, x, 0x32); c.u2(0xb8, c.p.method('Vals', 'same', '(L%s;L%s;)I' % (OBJ, OBJ))); out(c, 'I')
            e = bool_(1) * 2 if r else 'XArrayStoreException,'
        elif op == 'pcopy':
            c.op(5, 0xbc, NEWT[PRIM[a[0]]], 0x4b); c.op(5)
            if a[1]: c.op(0xbc, NEWT[PRIM[a[1]]])
            else: c.u2(0xbd, c.p.cls(OBJ))
            c.op(0x4c)
            c.op(0x2a + a[2], 3, 0x2b - a[2], 3, 5)
            c.u2(0xb8, c.p.method('java/lang/System', 'arraycopy', '(L%s;IL%s;II)V' % (OBJ, OBJ)))
            c.op(4); out(c, 'I'); e = bool_(1) if r else 'XArrayStoreException,'
        elif op == 'null':
            t = tname(a[0])
            c.op(1); c.u2(0xc1, c.p.cls(t)); out(c, 'I')
            c.op(1); c.u2(0xc0, c.p.cls(t)); c.op(0x57, 4); out(c, 'I')
            c.op(4); c.u2(0xbd, c.p.cls(t)); c.op(3, 1, 0x53, 4); out(c, 'I')
            cls(c, a[0]); c.op(1); c.u2(0xb6, c.p.method('java/lang/Class', 'isInstance', '(L%s;)Z' % OBJ)); out(c, 'I')
            e = bool_(0) + bool_(1) + bool_(1) + bool_(0)
        elif op == 'isinst':
            cls(c, a[1]); value(c, a[0], q & 1); c.u2(0xb6, c.p.method('java/lang/Class', 'isInstance', '(L%s;)Z' % OBJ)); out(c, 'I'); e = bool_(r)
        elif op == 'assign':
            cls(c, a[1]); cls(c, a[0]); c.u2(0xb6, c.p.method('java/lang/Class', 'isAssignableFrom', '(Ljava/lang/Class;)Z')); out(c, 'I'); e = bool_(r)
        elif op in ('getf', 'putf', 'gets', 'puts'):
            f = c.p.field(nm(a[0]), 'f%d' % a[1], desc(a[2]))
            if op[3] == 'f': obj(c, a[3])
            if op == 'putf': const(c, a[2], a[4]); c.u2(0xb5, f)
            elif op == 'puts': const(c, a[2], a[3]); c.u2(0xb3, f)
            elif op == 'getf': c.u2(0xb4, f); out(c, a[2])
            else: c.u2(0xb2, f); out(c, a[2])
            if op == 'gets': e = num(a[2], r)
            elif op == 'puts': e = ''
            else: e = {'npe': 'XNullPointerException,', 'nofield': 'XNoSuchFieldError,', 'ok': ''}.get(r[0])
            if e is None: e = num(a[2], r[1])
        elif op == 'gc':
            c.u2(0xb8, c.p.method('java/lang/System', 'gc', '()V')); e = ''
        else: raise Exception(op)
        c.op(0xb1)
        k.method('q%d' % q, '()V', 9, c, 12, 2)
        calls.append((home, 'q%d' % q))
        exp.append(e)
    # final comparison: for each object every field of every class
    c = main.code()
    e = ''
    for i, chain in b['fin']:
        for x in chain:
            if not x: continue
            d, vals = x
            for j, v in enumerate(vals, 1):
                f = ty[d - 1]['fs'][j - 1]
                if f['st']: c.u2(0xb2, c.p.field(nm(d), 'f%d' % j, desc(f['t'])))
                else: obj(c, i); c.u2(0xb4, c.p.field(nm(d), 'f%d' % j, desc(f['t'])))
                out(c, f['t'])
                e += num(f['t'], v)
    c.op(0xb1)
    main.method('fin', '()V', 9, c, 8, 2)
    calls.append((P, 'fin'))
    exp.append(e)
    c = main.code()
    for i, t in enumerate(ty, 1):
        if t['k'] == 'iface': continue
        for j, f in enumerate(t['fs'], 1):
            if f['st']:
                if f['t'] == 'L' and not f['cv']: c.op(1)
                else: const(c, f['t'], f['cv'])
                c.u2(0xb3, c.p.field(nm(i), 'f%d' % j, desc(f['t'])))
    c.op(0xb1)
    main.method('reset', '()V', 9, c, 8, 2)
    c = main.code()
    for i in concrete:
        c.u2(0xbb, c.p.cls(nm(i))); c.op(0x59); c.u2(0xb7, c.p.method(nm(i), '<init>', '()V'))
        c.u2(0xb3, c.p.field(P, 'o%d' % i, 'L%s;' % nm(i)))
    for n, (o, q) in enumerate(calls):
        c.label('s%d' % n)
        c.u2(0xb8, c.p.method(o, q, '()V'))
        c.label('t%d' % n)
        c.jump(0xa7, 'n%d' % n)
        c.label('h%d' % n)
        c.u2(0xb8, c.p.method('Vals', 'exc', '(Ljava/lang/Throwable;)V'))
        c.label('n%d' % n)
        c.u2(0xb8, c.p.method('Vals', 'mark', '()V'))
        c.handler('s%d' % n, 't%d' % n, 'h%d' % n)
    c.u2(0xb8, c.p.method(P, 'reset', '()V'))
    c.op(0xb1)
    main.method('run', '()V', 1, c, 8, 2)
    return [main] + list(ks.values()), '/'.join(exp) + '/'

def text(b):
    return ' '.join('T%d=%s/%s/%s/%s/%s' % (i, t['k'], t['sup'], ','.join(map(str, t['ifs'])), ','.join(n + ':' + h for n, h in sorted(t['ms'].items()) if h != 'none'),
        ','.join(f['t'] + ('s' if f['st'] else '') + (str(f['cv']) if f['cv'] else '') for f in t['fs'])) for i, t in enumerate(b['ty'], 1)) + \
        ' | ' + ' '.join(('%d:%s%s' % (i, o, a)).replace(' ', '').replace("'", '') for i, (o, a, r) in enumerate(b['hist']))

def run(c):
    mc, mc2, behs, builds = parallel(
        lambda: tlc.check('Hierarchy', 'Hierarchy_mc.cfg', workers=2, consts=None),
        lambda: c.quick or tlc.check('Hierarchy', 'Hierarchy_mc2.cfg', workers=2),
        lambda: tlc.simulate('Hierarchy', 'Hierarchy_sim.cfg', c.scale(320, 4000), 90, c.seed, procs=c.scale(5, 8), timeout=1500),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Hierarchy', mc)
    if not c.quick: c.add_model('Hierarchy (fields)', mc2)
    H = vm.VERIF + '/harness/java/'
    cls = vm.javac(builds['jit'], [H + 'H.java', H + 'Vals.java', H + 'BytecodeDriver.java'], 'BytecodeDriver')
    d = os.path.join(c.tmp, 'classes')
    os.makedirs(d)
    bb = []
    for n, b in enumerate(behs):
        classes, exp = program('P%d' % n, b)
        for k in classes:
            with open(os.path.join(d, k.name + '.class'), 'wb') as f: f.write(k.bytes())
        bb.append(('hierarchy ' + text(b), [('P%d' % n, exp)]))
    c.sample(dict(hierarchy=bb[0][0][:600], answers=bb[0][1][0][1][:300]))
    path = cls + ':' + d
    n = len(bb)
    def rep(config, part, chunks):
        Replayer(c, builds[config], path, 'BytecodeDriver').replay(part, 'hierarchy', chunks=chunks)
    parallel(lambda: rep('jit', bb, c.scale(3, 8)), lambda: rep('interp', bb, c.scale(3, 8)), lambda: rep('jit-stress', bb[::8], 2))
