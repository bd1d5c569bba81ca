"""C16: streams (Streams.tla) replayed on stacks of java.io streams."""
import vm, tlc
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of streams as a sequence with a position (Streams.tla): TLC exhaustive at small constants, TLC-generated behaviours replayed '
             'on stacks of buffered, filter, data, pushback, line-counting, encoding, print, inflating and file streams over sources with drawn chunk sizes')
NOTE = ('TLC checks on the specification that streams move only forward, writes are kept in order and the encoding is injective; behaviours of 90 operations over many '
        'stacks with buffers of 1 to 4096 units and contents up to 30 units are replayed and every delivered unit, end of stream, available, skip and flush compared (compiled, '
        'interpreted, and with a collection at every allocation). Sampling, not proof, on the implementation side. Mark/reset (unsupported by this library), malformed encodings '
        'and the carriage return in DataInputStream.readLine and LineNumberReader are outside the specification.')
CONFIGS = ['jit', 'interp', 'jit-stress']

def to_behaviour(b):
    return 'streams', [(' '.join([op[0]] + [fmt(a) for a in op[1:]]), fmt(res)) for op, res in b['hist']]

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('Streams', 'Streams_mc.cfg', workers=3),
        lambda: tlc.simulate('Streams', 'Streams_sim.cfg', c.scale(4500, 30000), 93, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Streams', mc)
    bb = [to_behaviour(b) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/StreamsDriver.java'], 'StreamsDriver')
    for config, part in [('jit', bb), ('interp', bb[::10]), ('jit-stress', bb[3::40])]:
        Replayer(c, builds[config], cls, 'StreamsDriver').replay(part, 'streams')
