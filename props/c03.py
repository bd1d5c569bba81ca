"""C03: object identity, identity hash codes, clone and intern (Identity.tla)."""
import vm, tlc
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of object identity, hash codes, monitors, clone and intern across collections (Identity.tla), TLC; '
             'behaviours replayed on the real VM')
NOTE = ('TLC checks the specification exhaustively at small constants; random behaviours are replayed on compiled and interpreted code '
        'with minor and full collections, with a collection forced at every allocation, and on an assertion build.')
CONFIGS = ['jit', 'interp', 'jit-stress', 'interp-stress', 'debug']

def to_behaviour(b):
    return 'identity', [(' '.join([op] + [fmt(a) for a in args]), fmt(res)) for op, args, res in b['hist']]

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('Identity', c.scale('Identity_mc.cfg', 'Identity_mc4.cfg'), workers=3),
        lambda: tlc.simulate('Identity', 'Identity_sim.cfg', c.scale(1000, 12000), 130, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Identity', mc)
    bb = [to_behaviour(b) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/IdentityDriver.java'], 'IdentityDriver')
    n = len(bb)
    def rep(config, part, small, chunks=3):
        Replayer(c, builds[config], cls, 'IdentityDriver', binary_args=['small'] if small else []).replay(part, 'identity', chunks=chunks)
    parallel(lambda: rep('jit', bb, False, 3),
             lambda: rep('interp', bb[:n // 4], False, 2),
             lambda: rep('debug', bb[n // 2:n * 3 // 4], False, 2),
             lambda: rep('jit-stress', bb[n // 2:], True, 3),
             lambda: rep('interp-stress', bb[:n // 8], True, 2))
