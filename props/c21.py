"""C21: thread lifecycle, join, interruption and thread-locals (Threads.tla)."""
import vm, tlc
from ctx import Replayer, fmt, parallel, run_vm
from concurrent.futures import ThreadPoolExecutor

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of threads, joining, interruption, uncaught exceptions and thread-locals (Threads.tla): exhaustive TLC run at 3 threads, simulated '
             'behaviours replayed command by command on real threads; a second specification of VM exit (Exits.tla) whose behaviours are run as processes')
NOTE = ('TLC checks, for all commands to 3 threads, that bodies run once, join waits for the end, interrupts are consumed once and thread-locals stay private, and for all '
        'trees of 3 threads that the VM exits exactly when the last non-daemon thread has finished. Hundreds of behaviours of 90 commands to 5 threads are replayed compiled, '
        'interpreted and with collections; 60 trees of 5 threads are run as processes. Interrupts of threads not yet started, timing and fairness, traces of other '
        'threads, Thread.State of blocked threads (Avian reports RUNNABLE) and shutdown hooks are not judged.')
CONFIGS = ['jit', 'interp', 'jit-stress']

def to_behaviour(b):
    ops = []
    for op, (t, x, y, who), done in b['hist']:
        ops.append(('%s %d %d %d [%s]' % (op, t, x, y, ','.join(map(str, who))), fmt(done)))
    return 'threads 5', ops

def exits(c, b, builds, cls):
    """each behaviour of Exits.tla is a process"""
    def one(x):
        i, e = x
        build = builds[('jit', 'interp')[i % 2]]
        args = [''.join(map(str, e['parent'])), ''.join(map(str, e['daemon'])), ''.join(h[0] for h in [e['main']] + e['how'])]
        for attempt in range(2):
            rc, out, err = run_vm(build, cls, 'ExitDriver', args, timeout=60)
            got = sorted(int(w) for w in out.split())
            if rc is None: what = 'the VM does not exit'
            elif got != e['marks']: what = 'threads that finished: %s, expected %s (exit code %s)' % (got, e['marks'], rc)
            elif (rc != 0) != (e['main'] == 'throw'): what = 'exit code %s' % rc
            else: return None
        return 'exit [%s] %s: %s; stderr: %s' % (build.config, ' '.join(args), what, err[-300:]), dict(args=args, expected=e['marks'])
    with ThreadPoolExecutor(4) as ex:
        for r in [r for r in ex.map(one, enumerate(b)) if r][:3]: c.violation(*r)
    c.add_traces('exits', len(b))

def run(c):
    mc, mc2, behs, trees, builds = parallel(
        lambda: tlc.check('Threads', 'Threads_mc.cfg', workers=3),
        lambda: tlc.check('Exits', 'Exits_mc.cfg', workers=2),
        lambda: tlc.simulate('Threads', 'Threads_sim.cfg', c.scale(400, 6000), 95, c.seed, procs=c.scale(4, 8)),
        lambda: tlc.simulate('Exits', 'Exits_sim.cfg', c.scale(60, 1500), 40, c.seed),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Threads', mc)
    c.add_model('Exits', mc2)
    bb = [to_behaviour(b) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/ThreadsDriver.java'], 'ThreadsDriver')
    n = len(bb)
    def rep(config, part, chunks=1):
        Replayer(c, builds[config], cls, 'ThreadsDriver').replay(part, 'threads', chunks=chunks)
    ex = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/ExitDriver.java'], 'ExitDriver')
    parallel(lambda: exits(c, trees, builds, ex),
             lambda: rep('jit', bb, 3),
             lambda: rep('interp', bb[:n // 2], 2),
             lambda: rep('jit-stress', bb[n // 2:n * 2 // 3], 2))
