"""C15: NIO buffers (Buffers.tla) replayed on the class library."""
import vm, tlc
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of buffers as views on shared stores (Buffers.tla): TLC exhaustive at small constants, TLC-generated behaviours '
             'replayed on heap, wrapped and direct ByteBuffers and on CharBuffers')
NOTE = ('TLC checks the index algebra, sharing and read-only rules exhaustively for two views of one store of up to 2 units; thousands of random behaviours of '
        '100 steps with four views and stores of up to 24 units are replayed step by step (compiled, interpreted, and with a collection at every allocation) and every result compared. Sampling, '
        'not proof, on the implementation side. This library has no mark/reset and only the big-endian order; both are outside the specification.')
CONFIGS = ['jit', 'interp', 'jit-stress']

def to_behaviour(b):
    return b['kind'], [(' '.join([op] + [fmt(a) for a in args]), fmt(res)) for op, args, res in b['hist']]

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('Buffers', 'Buffers_mc.cfg', workers=3),
        lambda: tlc.simulate('Buffers', 'Buffers_sim.cfg', c.scale(4500, 40000), 103, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Buffers', mc)
    bb = [to_behaviour(b) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/BuffersDriver.java'], 'BuffersDriver')
    Replayer(c, builds['jit'], cls, 'BuffersDriver').replay(bb, 'buffers')
    Replayer(c, builds['interp'], cls, 'BuffersDriver').replay(bb[::10], 'buffers')
    Replayer(c, builds['jit-stress'], cls, 'BuffersDriver').replay(bb[3::40], 'buffers')
