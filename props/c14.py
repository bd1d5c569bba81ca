"""C14: concurrent library objects; recorded histories checked against Concurrent.tla for an explanation."""
import os, re
import vm, tlc
from ctx import parallel, run_vm

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of the objects and of linearizability (Concurrent.tla): TLC checks exhaustively that atomic objects are always explained and keep their '
             'invariants; programs drawn from the specification run on real threads, and TLC decides for each recorded history whether it has an explanation (ConcurrentTrace.tla)')
NOTE = ('Four real threads of up to four operations each, many schedules per program as the machine gives them: every history is decided exactly by following all '
        'linearizations at once, but which schedules occur is left to chance. Programs are made so that every schedule lets them finish, so an operation that never returns is a violation. '
        'Timeouts are checked for giving up wrongly and for never ending, not for their length.')
CONFIGS = ['jit', 'interp', 'jit-stress']

def run_programs(c, build, cls, progs, repeats, tag):
    """-> [(program, history or None)]"""
    path = os.path.join(c.tmp, 'p-' + tag)
    res, start = [], 0
    while start < len(progs):
        with open(path, 'w') as f:
            for p in progs[start:]:
                f.write('%s %d\n' % (p['kind'], p['par']))
                for t in p['prog']:
                    f.write((' '.join(','.join(str(x) for x in o) for o in t) or '-') + '\n')
        rc, out, err = run_vm(build, cls, 'ConcurrentDriver', [path, str(repeats)], 400)
        lines = out.split('\n')[:-1]
        for p, l in zip(progs[start:], lines):
            for h in dict.fromkeys(l.split('/')):
                res.append((p, h, None))
        if len(lines) == len(progs) - start and not any('HANG' in l for l in lines) and rc == 0:
            break
        k = start + len(lines) - (1 if lines and 'HANG' in lines[-1] else 0)
        hang = bool(lines) and 'HANG' in lines[-1]
        if hang: res = [x for x in res if x[1] != 'HANG']
        p = progs[min(k, len(progs) - 1)]
        res.append((p, lines[-1].split('/')[0] if hang else '', 'an operation never returns' if hang else 'the VM %s: %s' % ('hangs' if rc is None else 'ends with %s' % rc, err[-500:])))
        start = k + 1
        if len([x for x in res if x[2]]) > 2: break
    return res

def trace(p, h):
    ev = []
    for e in h.split(';'):
        x = [int(v) for v in e.split()]
        ev.append([0, x[0], p['prog'][x[0] - 1][x[1]]] if len(x) == 2 else [1, x[0], x[2]])
    return dict(kind=p['kind'], par=p['par'], ev=ev)

def run(c):
    mcs, progs, builds = parallel(
        lambda: [tlc.check('Concurrent', f, workers=4) for f in c.scale(('Concurrent_mc.cfg',), ('Concurrent_mc.cfg', 'Concurrent_mc2.cfg'))],
        lambda: tlc.simulate('Concurrent', 'Concurrent_sim.cfg', c.scale(900, 6000), 3, c.seed, procs=2),
        lambda: vm.get_many(CONFIGS))
    for m in mcs: c.add_model('Concurrent', m)
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/ConcurrentDriver.java'], 'ConcurrentDriver')
    n = len(progs)
    seen = parallel(
        lambda: run_programs(c, builds['jit'], cls, progs[:n // 2], 12, 'jit'),
        lambda: run_programs(c, builds['interp'], cls, progs[n // 2:3 * n // 4], 6, 'interp'))
    seen.append(run_programs(c, builds['jit'], cls, progs[3 * n // 4:], 12, 'jit2'))
    seen.append(run_programs(c, builds['jit-stress'], cls, progs[:n // 40], 2, 'stress'))
    runs = [x for s in seen for x in s]
    c.sample(dict(program=runs[0][0], history=runs[0][1]))
    for p, h, bad in runs:
        if bad:
            c.violation('%s(%d): %s; program %s, history %s' % (p['kind'], p['par'], bad, p['prog'], h), dict(program=p, history=h, what=bad))
    good = [(p, h) for p, h, bad in runs if not bad and h]
    ts = [trace(p, h) for p, h in good]
    k = 8
    def one(i):
        part = list(range(i, len(ts), k))
        if not part: return [], dict(states=0, transitions=0)
        acc, st = tlc.validate('ConcurrentTrace', 'ConcurrentTrace.cfg', [ts[j] for j in part])
        return [j for x, j in enumerate(part) if x not in acc], st
    for bad, st in parallel(*[(lambda i=i: one(i)) for i in range(k)]):
        c.cov['states'] += st['states']; c.cov['transitions'] += st['transitions']
        for j in bad:
            p, h = good[j]
            c.violation('%s(%d): no order of the operations explains the history %s of the program %s' % (p['kind'], p['par'], h, p['prog']), dict(program=p, history=h))
    c.add_traces('histories', len(ts), distinct=len({(str(p), h) for p, h in good}))
