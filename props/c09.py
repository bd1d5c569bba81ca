"""C09: exceptions, finally and monitors on the way out (Unwind.tla)."""
import vm, tlc, unwind
from ctx import Replayer, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of structured control flow with exceptions (Unwind.tla): TLC exhaustive at small constants, TLC-generated runs turned into '
             'programs whose log (handlers, finally blocks, locals, locks held, stack traces) is compared with the specification')
NOTE = ('TLC checks that locks are balanced, finally blocks run exactly once and handlers match, over all programs of up to 5 statements; hundreds of random programs of up to 45 '
        'statements (try/catch/finally, synchronized, ten kinds of call, explicit and VM-raised exceptions in every operand position, rethrow, return through finally) are '
        'compiled with javac and run compiled, interpreted and with a collection at every allocation. Sampling, not proof, on the implementation side.')
CONFIGS = ['jit', 'interp', 'jit-stress']

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('Unwind', 'Unwind_mc.cfg', workers=3),
        lambda: tlc.simulate('Unwind', 'Unwind_sim.cfg', c.scale(1200, 12000), 400, c.seed, procs=c.scale(4, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Unwind', mc)
    hists = [b['hist'] for b in behs]
    c.sample(hists[0])
    cls, bb = unwind.programs(builds['jit'], hists, c.tmp)
    Replayer(c, builds['jit'], cls, 'rt.Rt').replay(bb, 'programs')
    Replayer(c, builds['interp'], cls, 'rt.Rt').replay(bb, 'programs')
    Replayer(c, builds['jit-stress'], cls, 'rt.Rt').replay(bb[::12], 'programs')
