"""C04: Java monitors (Monitor.tla)."""
import vm, tlc
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of Java monitors, wait sets and interruption (Monitor.tla): exhaustive TLC run, simulated behaviours replayed command by command on real threads'
NOTE = 'Exhaustive for 3 threads and 1 monitor (thorough: 2 monitors); behaviours of up to 70 commands on 4 threads and 3 monitors (object, synchronized methods, class object) replayed with the JIT, the interpreter and a collection at every VM allocation. Fairness, timing of timed waits and spurious wakeups are not judged.'
CONFIGS = ['jit', 'interp', 'jit-stress']

def to_behaviour(b):
    ops = []
    for op, args, res in b['hist']:
        t, m, comps = args
        ops.append(('%s %d %d %s' % (op, t, m, ' '.join('%d:%s' % (x, fmt(s)) for x, s in comps)), fmt(res)))
    return 'monitor 4', [(o.strip(), r) for o, r in ops]

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('Monitor', c.scale('Monitor_mc.cfg', 'Monitor_mc2.cfg'), workers=3),
        lambda: tlc.simulate('Monitor', 'Monitor_sim.cfg', c.scale(260, 6000), 75, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Monitor', mc)
    bb = [to_behaviour(b) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/MonitorDriver.java'], 'MonitorDriver')
    n = len(bb)
    def rep(config, part, chunks=1):
        Replayer(c, builds[config], cls, 'MonitorDriver').replay(part, 'monitor', chunks=chunks)
    parallel(lambda: rep('jit', bb),
             lambda: rep('interp', bb[:n // 2]),
             lambda: rep('jit-stress', bb[n // 2:n * 2 // 3]))
