"""C12: maps and sets (Maps.tla) replayed on the class library."""
import random
import vm, tlc
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of maps and sets (Maps.tla): TLC exhaustive at small constants, TLC-generated behaviours replayed on the class library'
NOTE = ('TLC checks the specification exhaustively for 3 keys; thousands of random behaviours of length 120 over up to 40 keys and '
        '8 hash functions are replayed step by step on the real classes (compiled and interpreted) and every result compared. '
        'Sampling, not proof, on the implementation side.')
CONFIGS = ['jit', 'interp']

SETS = {'hashset', 'linkedset', 'treeset', 'treesetrev', 'pset'}
NULLABLE = {'hash', 'hash2', 'linked', 'hashset', 'linkedset'}

def to_behaviour(b, rng):
    kind = b['kind']
    nk = 1 if kind in NULLABLE and rng.random() < 0.3 else 0
    head = '%s %d %d %d' % (kind, b['K'], rng.randrange(8), nk)
    ops = []
    for op, args, res in b['hist']:
        if op == 'copy' and kind in SETS:
            res = [y for x in res[::2] for y in (x, 0)]
        ops.append((' '.join([op] + [fmt(a) for a in args]), fmt(res)))
    ops.append(('elems' if kind in SETS else 'entries', fmt(b['fin'])))
    return head, ops

def run(c):
    rng = random.Random(c.seed)
    def model():
        return tlc.check('Maps', 'Maps_mc.cfg', workers=3)
    def sim():
        return tlc.simulate('Maps', 'Maps_sim.cfg', c.scale(4500, 40000), 130, c.seed, procs=c.scale(4, 8))
    mc, behs, builds = parallel(model, sim, lambda: vm.get_many(['jit', 'interp']))
    c.add_model('Maps', mc)
    bb = [to_behaviour(b, rng) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/MapsDriver.java'], 'MapsDriver')
    Replayer(c, builds['jit'], cls, 'MapsDriver').replay(bb, 'maps')
    Replayer(c, builds['interp'], cls, 'MapsDriver').replay(bb[::10], 'maps')
