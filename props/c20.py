"""C20: strings, builders and bit sets (Texts.tla) replayed on the class library."""
import vm, tlc
from ctx import Replayer, fmt, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of strings and builders as character sequences and of bit sets as sets (Texts.tla): TLC exhaustive at small '
             'constants, TLC-generated behaviours replayed on String, StringBuilder, StringBuffer and BitSet')
NOTE = ('TLC checks the specification exhaustively for strings of up to 2 units over 2 letters and bit sets over 4 bits; thousands of random behaviours of 90 steps '
        '(strings up to 120 units of ASCII, Latin-1 and BMP characters, bits up to 200) are replayed step by step (compiled and interpreted) and every result '
        'compared. Sampling, not proof, on the implementation side. Left out: regular expressions, formatting, supplementary characters, malformed encodings, '
        'case mapping outside ASCII (which this library does not have).')
CONFIGS = ['jit', 'interp']

def to_behaviour(b):
    ops = [(' '.join([op] + [fmt(a) for a in args]), fmt(res)) for op, args, res in b['hist']]
    if b['kind'] == 'bits':
        ops.append(('allSets', fmt(b['regs'])))
    else:
        ops.append(('all', fmt(b['regs'])))
        if b['kind'] != 'string':
            ops.append(('showB', fmt(b['fin'])))
    return b['kind'], ops

def run(c):
    mc, behs, builds = parallel(
        lambda: tlc.check('Texts', 'Texts_mc.cfg', workers=3),
        lambda: tlc.simulate('Texts', 'Texts_sim.cfg', c.scale(3200, 30000), 93, c.seed, procs=c.scale(5, 8)),
        lambda: vm.get_many(CONFIGS))
    c.add_model('Texts', mc)
    bb = [to_behaviour(b) for b in behs]
    c.sample(dict(behaviour=bb[0][0], steps=bb[0][1][:12]))
    cls = vm.javac(builds['jit'], [vm.VERIF + '/harness/java/H.java', vm.VERIF + '/harness/java/TextsDriver.java'], 'TextsDriver')
    Replayer(c, builds['jit'], cls, 'TextsDriver').replay(bb, 'texts')
    Replayer(c, builds['interp'], cls, 'TextsDriver').replay(bb[::10], 'texts')
