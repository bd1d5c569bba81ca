"""C18: tail calls (TailCalls.tla, Unwind.tla)."""
import json, os, re
import vm, tlc, unwind
from ctx import Replayer, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of a machine with and one without tail-call elimination (TailCalls.tla): TLC shows them equivalent exhaustively at small constants; '
             'TLC-generated programs are run on a build with tail calls, as are the programs of Unwind.tla')
NOTE = ('TLC checks, for all programs of 2 methods, that the lean machine keeps only frames with work left and gives the same result. Hundreds of random programs of 5 methods with '
        'up to 8 parameters (static, virtual, interface, special, super, not yet loaded callees, synchronized callers, try/finally/synchronized around the call) run on the '
        'tails=true build, plain and with a collection at every allocation; chains of 200000 or more calls show that the stack is bounded. Programs are sampled.')
CONFIGS = ['tailcont', 'tailcont-stress', 'jit']

JT = dict(I='int', J='long', D='double', F='float', L='String', V='void')
HOME = dict(static='P', lazyStatic='L', lazyVirtual='L', super='B')

def program(b):
    """package sources: {class: text}"""
    r = b['rtype']
    R = JT[r]
    bodies = dict(P=[], B=[], L=[], I=[])
    def call(g, args, home, inst):
        kind = b['sigs'][g - 1]['kind']
        a = ', '.join(args)
        e = {'static': 'P.m%d', 'lazyStatic': 'L.m%d', 'lazyVirtual': 'L.it.m%d', 'virtual': 'P.b.m%d', 'interface': 'P.i.m%d',
             'special': 'P.it.m%d' if home == 'P' else 'P.f%d', 'super': 'super.m%d' if home == 'P' and inst else 'P.it.s%d'}[kind]
        return '%s(%s)' % (e % g, a)
    for m, s in enumerate(b['sigs'], 1):
        kind = s['kind']
        home = HOME.get(kind, 'P')
        inst = kind not in ('static', 'lazyStatic')
        params = ', '.join(['int n'] + ['%s p%d' % (JT[t], j) for j, t in enumerate(s['ps'], 1)])
        names = ', '.join(['n'] + ['p%d' % j for j in range(1, len(s['ps']) + 1)])
        h = '%d' % m
        for j in range(1, len(s['ps']) + 1): h = 'T.h(%s, T.d(p%d))' % (h, j)
        out = []
        log = not b['long']
        nat = {'I': 'Float.floatToRawIntBits(Float.intBitsToFloat(%s))', 'J': 'Double.doubleToRawLongBits(Double.longBitsToDouble(%s))', 'L': '%s.intern()',
               'D': 'Double.longBitsToDouble(Double.doubleToRawLongBits(%s))', 'F': 'Float.intBitsToFloat(Float.floatToRawIntBits(%s))'}
        native = lambda e: 'return %s;' % (nat[r] % ('T.%s(%s)' % (r, e))) if m % 2 and r != 'V' else ret(e)   # a native method in tail position
        ret = lambda e: 'T.v = %s; return;' % e if r == 'V' else 'return T.%s(%s);' % (r, e)
        out.append('    if (n == 0) { %s%s }' % ('T.base(%d); ' % m if log else '', 'throw new T.X(%s);' % h if s['base'] == 'throw' else native(h)))
        if log: out.append('    T.enter(%d, n);' % m)
        for par in (1, 0):
            site = b['sites'][2 * m - par - 1]
            args = ['n - 1'] + ['p%d' % x[1] if x[0] == 'p' else 'T.%s(%d)' % (b['sigs'][site['target'] - 1]['ps'][j], x[1]) if (x[1] + j) % 2 else
                                {'I': '%d', 'J': '%d * 4294967297L', 'D': '%d.5', 'F': '%d.25f', 'L': '"s%d"'}[b['sigs'][site['target'] - 1]['ps'][j]] % x[1]
                                for j, x in enumerate(site['src'])]
            e = call(site['target'], args, home, inst)
            tail = e + '; return;' if r == 'V' else 'return %s;' % e
            mode = site['mode']
            if mode == 'tail': t = tail
            elif mode == 'plus':
                t = '%s; T.v = (T.v * 3 + %d) %% 10007; return;' % (e, m) if r == 'V' else '%s x = %s; return T.%s((T.d(x) * 3 + %d) %% 10007);' % (R, e, r, m)
            elif mode == 'catch': t = 'try { %s } catch (T.X x) { T.note("c", %d, n); %s }' % (tail, m, ret('(x.v + 5 * %d) %% 10007' % m))
            elif mode == 'finally': t = 'try { %s } finally { T.note("f", %d, n); }' % (tail, m)
            else: t = 'synchronized (T.M[%d]) { %s }' % (m % 3, tail)
            out.append('    if (n %% 2 == 1) { %s }' % t if par else '    %s' % t)
        mod = {'static': 'static ', 'lazyStatic': 'static ', 'special': 'private '}.get(kind, 'public ') + ('synchronized ' if s['sync'] else '')
        bodies[home].append('  %s%s m%d(%s) {\n%s\n  }' % (mod, R, m, params, '\n'.join(out)))
        back = '' if r == 'V' else 'return '
        if kind == 'virtual': bodies['B'].append('  public %s m%d(%s) { throw new Error(); }' % (R, m, params))
        if kind == 'interface': bodies['I'].append('  %s m%d(%s);' % (R, m, params))
        if kind == 'special':
            bodies['P'].append('  static %s f%d(%s) { %sit.m%d(%s); }' % (R, m, params, back, m, names))
            bodies['B'].append('  public %s m%d(%s) { throw new Error(); }' % (R, m, params) if False else '')
        if kind == 'super':
            bodies['P'].append('  public %s m%d(%s) { throw new Error(); }' % (R, m, params))
            bodies['P'].append('  %s s%d(%s) { %ssuper.m%d(%s); }' % (R, m, params, back, m, names))
    m, n, vals = b['start']
    e = call(m, ['%d' % n] + ['T.%s(%d)' % (t, v) for t, v in zip(b['sigs'][m - 1]['ps'], vals)], 'P', True)
    bodies['P'].append('  public int run() throws Throwable { %s }' % ('%s; return T.v;' % e if r == 'V' else 'return T.d(%s);' % e))
    j = '\n'.join
    return dict(I='interface I {\n%s\n}' % j(bodies['I']), B='class B {\n%s\n}' % j(bodies['B']), L='class L {\n  static L it = new L();\n%s\n}' % j(bodies['L']),
                P='public class P extends B implements I, T.Program {\n  public static P it = new P();\n  static B b = it;\n  static I i = it;\n%s\n}' % j(bodies['P']))

def build(behs, tmp, jit):
    srcs = [vm.VERIF + '/harness/java/tc/T.java']
    out = []
    for k, b in enumerate(behs):
        d = os.path.join(tmp, 'tcsrc', 'q%d' % k)
        os.makedirs(d)
        for n, s in program(b).items():
            with open('%s/%s.java' % (d, n), 'w') as f: f.write('package q%d;\nimport tc.T;\n%s\n' % (k, s))
            srcs.append('%s/%s.java' % (d, n))
        log = [{'enter': 'e%d/%d', 'catch': 'c%d/%d', 'finally': 'f%d/%d', 'base': 'b%d'}[x[0]] % (tuple(x[1:3]) if x[0] != 'base' else (x[1],)) for x in b['log']]
        ops = log + ['%s %d' % (b['kind'], b['value'])]
        out.append(('q%d' % k, [('run' if i else 'program ' + str(b['sigs'])[:300], o) for i, o in enumerate(ops)]))
    cls = os.path.join(tmp, 'tc')
    os.makedirs(cls)
    vm.javac_to(jit, srcs, cls)
    return cls, out

def frameless(hists, tmp, jit, per=20):
    """the programs of Unwind.tla; frames replaced by tail calls are missing in stack traces, so those are not compared"""
    hists = [h for h in hists if unwind.fits(h)]
    d = os.path.join(tmp, 'usrc')
    os.makedirs(d + '/rt')
    with open(vm.VERIF + '/harness/java/rt/Rt.java') as f: rt = f.read()
    assert '":" + trace(e) + ":"' in rt
    with open(d + '/rt/Rt.java', 'w') as f: f.write(rt.replace('":" + trace(e) + ":"', '"::"'))
    srcs, behs = [d + '/rt/Rt.java'], []
    for k in range(0, len(hists), per):
        pkg = 'u%03d' % (k // per)
        src, logs = unwind.source(pkg, hists[k:k + per])
        os.makedirs(d + '/' + pkg)
        with open(d + '/' + pkg + '/G.java', 'w') as f: f.write(src)
        srcs.append(d + '/' + pkg + '/G.java')
        for i, log in enumerate(logs):
            behs.append(('%s %d' % (pkg, i), [('log' if j else 'program ' + json.dumps(hists[k + i]), re.sub(r'^(C[^:]*:[^:]*):[^:]*:', r'\1::', e)) for j, e in enumerate(log)]))
    cls = os.path.join(tmp, 'u')
    os.makedirs(cls)
    vm.javac_to(jit, srcs, cls)
    return cls, behs

def run(c):
    mc, behs, uw, builds = parallel(
        lambda: tlc.check('TailCalls', 'TailCalls_mc.cfg', workers=3),
        lambda: tlc.simulate('TailCalls', 'TailCalls_sim.cfg', c.scale(400, 4000), 400, c.seed, procs=4),
        lambda: tlc.simulate('Unwind', 'Unwind_sim.cfg', c.scale(300, 4000), 400, c.seed + 77, procs=2),
        lambda: vm.get_many(CONFIGS))
    c.add_model('TailCalls', mc)
    c.sample(behs[0])
    cls, bb = build(behs, c.tmp, builds['jit'])
    longs = [x for x, b in zip(bb, behs) if b['long']]
    shorts = [x for x, b in zip(bb, behs) if not b['long']]
    Replayer(c, builds['tailcont'], cls, 'tc.T').replay(longs, 'long chains')
    Replayer(c, builds['tailcont'], cls, 'tc.T').replay(shorts, 'calls')
    Replayer(c, builds['tailcont-stress'], cls, 'tc.T').replay(shorts[::10] + longs[::40], 'calls')
    Replayer(c, builds['jit'], cls, 'tc.T').replay(shorts, 'calls')
    cls, bb = frameless([b['hist'] for b in uw], c.tmp, builds['jit'])
    Replayer(c, builds['tailcont'], cls, 'rt.Rt').replay(bb, 'programs')
