"""C13: lists, stacks and deques (Lists.tla) replayed on the class library."""
import random
import vm, tlc
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of lists, deques, their iterators and the list helpers as operations on a sequence (Lists.tla): TLC exhaustive at small '
             'constants, TLC-generated behaviours replayed on the class library')
NOTE = ('TLC checks the specification exhaustively for sequences of up to 4 elements of 3 values; thousands of random behaviours of 110 steps with up to 60 elements '
        'are replayed step by step on ArrayList, LinkedList, Vector, Stack, ArrayDeque, Arrays.asList and Collections.synchronizedList (compiled and interpreted) '
        'and every result compared. Sampling, not proof, on the implementation side. Concurrent modification, equality of lists and stability of sorting are left out.')
CONFIGS = ['jit', 'interp']

def to_behaviour(b, rng):
    ops = [(' '.join([op] + [fmt(a) for a in args]), fmt(res)) for op, args, res in b['hist']]
    ops.append(('toArray', fmt(b['fin'])))
    ops.append(('size', str(len(b['fin']))))
    return '%s %s %d' % (b['kind'], fmt(b['first']), rng.randrange(6)), ops

def run(c):
    rng = random.Random(c.seed)
    mc, behs, builds = parallel(
        lambda: tlc.check('Lists', 'Lists_mc.cfg', workers=3),
        lambda: tlc.simulate('Lists', 'Lists_sim.cfg', c.scale(4500, 40000), 113, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Lists', mc)
    bb = [to_behaviour(b, rng) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/ListsDriver.java'], 'ListsDriver')
    Replayer(c, builds['jit'], cls, 'ListsDriver').replay(bb, 'lists')
    Replayer(c, builds['interp'], cls, 'ListsDriver').replay(bb[::10], 'lists')
