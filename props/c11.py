"""C11: class loading (Loaders.tla)."""
import os
import vm, tlc
from ctx import Replayer, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of class loaders (Loaders.tla): TLC exhaustive at small constants, TLC-generated behaviours replayed with loaders that delegate '
             'first or last, find, miss, damage and race for generated classes')
NOTE = ('TLC checks that answers are stable, unique and from the delegation path, and that superclasses go through the defining loader, for 2 loaders, 2 classes and 6 requests; '
        'hundreds of random behaviours of 60 requests with 3 loaders and 5 classes (requests by loadClass, forName, code of five kinds and four racing threads, explicit and '
        'duplicate definitions, missing, truncated and mended class files, classes of the same names in the application loader) are replayed. Class names other than expected and class unloading are left out.')
CONFIGS = ['jit', 'interp', 'jit-stress']

def sources(tmp):
    for g in range(5):
        d = os.path.join(tmp, 'src', 'g%d' % g)
        os.makedirs(d)
        for k in range(1, 6):
            ms = ''.join('  static Class n%d() { return new K%d().getClass(); }\n  static Class l%d() { return K%d.class; }\n  static Class s%d() { return K%d.me(); }\n'
                         '  static Class a%d() { return new K%d[1].getClass().getComponentType(); }\n  static Class b%d() { return new K%d[1][1].getClass().getComponentType().getComponentType(); }\n'
                         '  static Class r%d() { return new K%d().getClass(); }\n' % ((t,) * 12) for t in range(1, 6))
            cases = ''.join('    case %d: return %s%d();\n' % (h * 10 + t, 'nlsabr'[h], t) for h in range(6) for t in range(1, 6))
            with open('%s/K%d.java' % (d, k), 'w') as f:
                f.write('public class K%d%s implements ld.Probe {\n  public static Class me() { return K%d.class; }\n%s  public Class ref(int how, int target) {\n'
                        '    switch (how * 10 + target) {\n%s    default: return null;\n    }\n  }\n}\n' % (k, ' extends K%d' % g if 0 < g < k else '', k, ms, cases))

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('Loaders', 'Loaders_mc.cfg', workers=3),
        lambda: tlc.simulate('Loaders', 'Loaders_sim.cfg', c.scale(600, 8000), 400, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Loaders', mc)
    lib = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/ld/%s.java' % n for n in ('Probe', 'Ld')], 'ld')
    sources(c.tmp)
    def comp(g):
        out = os.path.join(c.tmp, 'k', 'g%d' % g)
        os.makedirs(out)
        vm.javac_to(builds['jit'], ['%s/src/g%d/K%d.java' % (c.tmp, g, k) for k in range(1, 6)], out, ['-cp', lib])
    parallel(*[lambda g=g: comp(g) for g in range(5)])
    bb = []
    for b in behs:
        sup = [s if s < k else 0 for k, s in enumerate(b['super'], 1)]
        head = '%s %s %s %s' % (''.join(map(str, b['parent'])), ''.join('01'[x] for x in b['first']), ''.join(map(str, sup)), ' '.join(','.join(f) for f in b['files']))
        bb.append((head, [(' '.join(map(str, o)), None if e == '?' else e) for o, e in b['hist']]))
    c.sample(dict(head=bb[0][0], steps=bb[0][1][:15]))
    go = lambda conf, b, n: Replayer(c, builds[conf], lib + ':' + c.tmp + '/k/g0', 'ld.Ld', binary_args=[c.tmp + '/k']).replay(b, 'loaders', chunks=len(b) // n + 1)
    go('jit', bb, 40)
    go('interp', bb[::2], 40)
    go('jit-stress', bb[:c.scale(24, 200)], 1)
