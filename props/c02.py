"""C02: references, queues, finalizers and WeakHashMap (Refs.tla)."""
import vm, tlc
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of references, queues, finalizers and WeakHashMap over a reachability graph (Refs.tla), TLC; '
             'behaviours replayed on the real VM with minor and full collections')
NOTE = ('TLC checks the specification exhaustively at small constants; random behaviours are replayed on compiled and interpreted code, '
        'with objects of different ages and with collections forced at every allocation. Sampling, not proof, on the implementation side.')
CONFIGS = ['jit', 'interp', 'jit-stress', 'interp-stress']

def to_behaviour(b):
    return 'refs', [(' '.join([op] + [fmt(a) for a in args]), None if res == -999 else fmt(res)) for op, args, res in b['hist']]

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('Refs', c.scale('Refs_mc.cfg', 'Refs_mc2.cfg'), workers=3),
        lambda: tlc.simulate('Refs', 'Refs_sim.cfg', c.scale(600, 8000), 140, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Refs', mc)
    bb = [to_behaviour(b) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/RefsDriver.java'], 'RefsDriver')
    n = len(bb)
    def rep(config, part, small, chunks=3):
        Replayer(c, builds[config], cls, 'RefsDriver', binary_args=['small'] if small else []).replay(part, 'refs', chunks=chunks)
    parallel(lambda: rep('jit', bb, False, 4),
             lambda: rep('interp', bb[:n // 4], False, 2),
             lambda: rep('jit-stress', bb[n // 2:], True, 3),
             lambda: rep('interp-stress', bb[:n // 8], True, 2))
