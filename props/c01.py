"""C01: the Java-visible object graph survives collections (ObjGraph.tla), replayed with real stores and collections."""
import os
import vm, tlc, gen_frames
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of the object graph (ObjGraph.tla) and of the collector (Collector.tla), TLC; '
             'behaviours replayed on the real VM with every kind of store and with collections forced at every allocation')
NOTE = ('TLC checks the specifications exhaustively at small constants; random behaviours (threads, frames with different layouts, '
        'large and pinned objects, every kind of store) are replayed on compiled and interpreted code with minor/full collections '
        'forced at every allocation, and the visible graph is compared. Sampling, not proof, on the implementation side.')
CONFIGS = ['jit', 'interp', 'jit-stress', 'interp-stress']

def driver(c, build):
    src = os.path.join(c.tmp, 'src')
    os.makedirs(src, exist_ok=True)
    g = open(vm.VERIF + '/harness/java/GraphDriver.java').read().replace('/*BIG*/', gen_frames.big())
    open(src + '/GraphDriver.java', 'w').write(g)
    open(src + '/Frames.java', 'w').write(gen_frames.frames())
    return vm.javac(build, [vm.VERIF + '/harness/java/H.java', src + '/GraphDriver.java', src + '/Frames.java'], 'GraphDriver')

def to_behaviour(b):
    return str(b['T']), [('%d %s' % (t, ' '.join([op] + [fmt(a) for a in args])), fmt(res)) for t, op, args, res in b['hist']]

R = vm.REPO
HEAP_SRCS = [vm.VERIF + '/harness/cpp/heap_driver.cpp', R + '/src/heap/heap.cpp', R + '/src/system/posix.cpp',
             R + '/src/system/posix/memory.cpp', R + '/src/system/posix/signal.cpp', R + '/src/system/posix/crash.cpp']
HEAP_SRCS = [s for s in HEAP_SRCS if os.path.exists(s)]

def heap_part(c):
    """Collector.tla on src/heap/heap.cpp, with assertions and address checking, and again optimized"""
    mc, behs, asan, opt = parallel(
        lambda: tlc.check('Collector', c.scale('Collector_mc.cfg', 'Collector_mc3.cfg'), workers=2),
        lambda: tlc.simulate('Collector', 'Collector_sim.cfg', c.scale(600, 6000), 220, c.seed + 7, procs=c.scale(3, 8)),
        lambda: vm.cxx('heap-asan', HEAP_SRCS, ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr']),
        lambda: vm.cxx('heap-opt', HEAP_SRCS, ['-O2', '-DNDEBUG']))
    c.add_model('Collector', mc)
    bb = [(str((64 << 20) if i % 3 else (3 << 19)), [(' '.join([op] + [fmt(a) for a in args]), fmt(res)) for op, args, res in b['hist']])
          for i, b in enumerate(behs)]
    c.sample(dict(heap=bb[0][1][:10]))
    env = dict(ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0')
    Replayer(c, None, None, 'heap_driver', native=opt).replay(bb, 'heap', chunks=2)
    Replayer(c, None, None, 'heap_driver', native=asan, env=env).replay(bb[:c.scale(120, 2000)], 'heap', chunks=3)

def run(c):
    parallel(lambda: graph_part(c), lambda: heap_part(c))

def graph_part(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('ObjGraph', c.scale('ObjGraph_mc2.cfg', 'ObjGraph_mc.cfg'), workers=3),
        lambda: tlc.simulate('ObjGraph', 'ObjGraph_sim.cfg', c.scale(700, 8000), 150, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS + ([] if c.quick else ['jit-stress-major'])))
    c.add_model('ObjGraph', mc)
    bb = [to_behaviour(b) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = driver(c, builds['jit'])
    n = len(bb)
    def rep(config, part, small, heap=None, chunks=3, timeout=150):
        Replayer(c, builds[config], cls, 'GraphDriver', binary_args=['small'] if small else [], heap=heap, timeout=timeout).replay(part, 'graph', chunks=chunks)
    parallel(lambda: rep('jit-stress', bb[:n // 2], True, chunks=4),
             lambda: rep('interp-stress', bb[n // 2:n // 2 + n // 8], True),
             lambda: None if c.quick else rep('jit-stress-major', bb[:30], True, timeout=800),
             lambda: rep('jit', bb, False, '48m', chunks=4),
             lambda: rep('interp', bb[n // 2:n // 2 + n // 4], False, '48m'))
