"""C06: class initialization (ClassInit.tla)."""
import os
import vm, tlc
from ctx import Replayer, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of class initialization by several threads (ClassInit.tla): TLC exhaustive at small constants, TLC-generated behaviours run by '
             'threads and initializers of generated classes which follow them command by command')
NOTE = ('TLC checks that initializers run once and in order, that failure is final and that nobody is left waiting, for all hierarchies of 3 classes, 2 threads and 7 '
        'commands; hundreds of random behaviours of 40 commands with 3 threads and 5 classes and interfaces are replayed, with every kind of use (instructions, reflection, '
        'inherited members), compiled (each use from code first compiled by different threads), interpreted and with collections. A thread that should be waiting is '
        'observed for 4 ms. Interfaces with default methods and JNI uses are left out.')
CONFIGS = ['jit', 'interp', 'jit-stress']

ACTIVE = ['new', 'get', 'put', 'call', 'empty', 'forName', 'newInstance', 'invoke', 'fieldGet', 'inheritedGet', 'inheritedCall']
PASSIVE = ['instanceof', 'array', 'literal', 'forNameFalse', 'constant']
IFACE = ['get', 'call', 'forName', 'fieldGet']

def code(kind, c, d, pkg):
    C, D = 'C%d' % c, 'C%d' % d
    val = 'return ci.Init.val(%d);' % c
    return {
        'new': 'new %s(); %s' % (C, val), 'get': 'return %s.v%d;' % (C, c), 'put': '%s.w%d = 1; %s' % (C, c, val), 'call': 'return %s.m%d();' % (C, c),
        'empty': '%s.e%d(); %s' % (C, c, val), 'forName': 'Class.forName("%s.%s", true, U.class.getClassLoader()); %s' % (pkg, C, val),
        'newInstance': '%s.class.newInstance(); %s' % (C, val), 'invoke': 'return ((Integer) %s.class.getMethod("m%d").invoke(null)).intValue();' % (C, c),
        'fieldGet': 'return ((Integer) %s.class.getField("v%d").get(null)).intValue();' % (C, c),
        'inheritedGet': 'return %s.v%d;' % (D, c), 'inheritedCall': 'return %s.m%d();' % (D, c),
        'instanceof': 'Object o = "x"; return o instanceof %s ? 1 : 0;' % C, 'array': 'return new %s[1].length - 1;' % C, 'literal': 'return %s.class == null ? 1 : 0;' % C,
        'forNameFalse': 'return Class.forName("%s.%s", false, U.class.getClassLoader()) == null ? 1 : 0;' % (pkg, C), 'constant': 'return %s.K%d - %d;' % (C, c, 30 + c)}[kind]

def uses(sup, ifaces):
    """[(kind, c, d, variant)] of a hierarchy"""
    r = []
    for c in range(1, len(sup) + 1):
        for kind in ACTIVE + PASSIVE:
            if c in ifaces and kind not in IFACE + PASSIVE: continue
            ds = [c] + [d for d in range(1, len(sup) + 1) if sup[d - 1] == c] if kind.startswith('inherited') else [c]
            r += [(kind, c, d, v) for d in ds for v in (0, 1)]
    return r

def source(pkg, sup, ifaces, only=None):
    files = {}
    for c in range(1, len(sup) + 1):
        if c in ifaces:
            files['C%d' % c] = 'public interface C%d { int v%d = ci.Init.run(%d); int K%d = %d; static int m%d() { return ci.Init.val(%d); } }' % (c, c, c, c, 30 + c, c, c)
        else:
            files['C%d' % c] = 'public class C%d%s%s { public static int v%d = ci.Init.run(%d), w%d; public static final int K%d = %d;\n  public static int m%d() { return ci.Init.val(%d); }\n  public static void e%d() { } }' % (
                c, ' extends C%d' % sup[c - 1] if sup[c - 1] else '', ' implements ' + ', '.join('C%d' % i for i in ifaces) if ifaces else '', c, c, c, c, 30 + c, c, c, c)
    us = [u for u in uses(sup, ifaces) if only is None or u in only]
    files['U'] = 'public class U implements ci.Uses {\n%s\n  public int use(int i) throws Throwable {\n    switch (i) {\n%s\n    default: return -2;\n    }\n  }\n}' % (
        '\n'.join('  static int u%d() throws Throwable { %s }' % (i, code(k, c, d, pkg)) for i, (k, c, d, v) in enumerate(us)),
        '\n'.join('    case %d: return u%d();' % (i, i) for i in range(len(us))))
    return {n: 'package %s;\n%s\n' % (pkg, s) for n, s in files.items()}, {u: i for i, u in enumerate(us)}

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('ClassInit', 'ClassInit_mc.cfg' if c.quick else 'ClassInit_mc2.cfg', workers=3),
        lambda: tlc.simulate('ClassInit', 'ClassInit_sim.cfg', c.scale(600, 8000), 400, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('ClassInit', mc)
    shapes, srcs = {}, []
    def behaviour(b, own):
        """with the uses of its shape, or a package of its own with only the uses it needs"""
        cmds = [cmd for cmd, _ in b['hist']]
        use = lambda cmd: (cmd[2], cmd[3], cmd[4] if cmd[2].startswith('inherited') else cmd[3], cmd[5])
        key = (tuple(b['super']), tuple(b['iface']), own)
        if key not in shapes:
            pkg = 't%d' % len(shapes)
            files, index = source(pkg, b['super'], b['iface'], {use(cmd) for cmd in cmds if cmd[0] == 'use'} if own else None)
            shapes[key] = pkg, index
            d = os.path.join(c.tmp, 'src', pkg)
            os.makedirs(d)
            for n, s in files.items():
                with open('%s/%s.java' % (d, n), 'w') as f: f.write(s)
                srcs.append('%s/%s.java' % (d, n))
        pkg, index = shapes[key]
        ops = []
        for cmd, reps in b['hist']:
            who = ''.join(str(i + 1) for i, r in enumerate(reps) if r) or '0'
            op = cmd[0]
            if op == 'use': line = 'use %d %d %s' % (cmd[1], index[use(cmd)], '_'.join(map(str, cmd[2:5])))
            elif op == 'throw': line = 'throw %d throw_%s' % (cmd[1], cmd[2])
            elif op == 'end': line = 'end %d end' % cmd[1]
            else: line = ' '.join(map(str, cmd))
            ops.append((line + ' ' + who, ' '.join('+'.join('%s:%d' % (x, i) for x, i in r) or '-' for r in reps)))
        return pkg, ops
    bb = [behaviour(b, 0) for b in behs]
    few = [behaviour(b, i) for i, b in enumerate(behs[:c.scale(24, 200)], 1)]
    c.sample(dict(super=behs[0]['super'], interfaces=behs[0]['iface'], steps=bb[0][1][:12]))
    lib = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/ci/%s.java' % n for n in ('Uses', 'Init')], 'ci')
    out = os.path.join(c.tmp, 'shapes')
    os.makedirs(out)
    vm.javac_to(builds['jit'], srcs, out, ['-cp', lib])
    go = lambda conf, b, n: Replayer(c, builds[conf], lib, 'ci.Init', binary_args=[out, '60000' if conf == 'jit-stress' else '10000']).replay(b, 'init', chunks=len(b) // n + 1)
    go('jit', bb, 12)
    go('interp', bb[::2], 12)
    go('jit-stress', few, 1)
