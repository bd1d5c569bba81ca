"""C08: bytecode semantics (Bytecode.tla)."""
import os, struct
import vm, tlc, asm
from ctx import Replayer, parallel

LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of the Java virtual machine instructions (Bytecode.tla over Words.tla): generated methods with the output the specification '
             'computes, run on the compiler and the interpreter; arithmetic laws checked exhaustively by TLC')
NOTE = ('TLC checks the arithmetic of the specification against the integers for all pairs of 8-bit numbers; random methods (branches, joins, switches, loops, '
        'calls, all stack operations, fields, arrays, exceptions at the end) are run compiled, interpreted, with collections at every allocation and on assertion builds. '
        'Floating point only where the exact result fits 30 bits before rounding; no denormals.')
CONFIGS = ['jit', 'interp', 'jit-stress', 'debug']

LOC = dict(i0=1, i1=2, i2=3, j0=4, j1=6, f0=8, f1=9, d0=10, d1=12, r0=14, r1=15)
LOAD = dict(i=0x15, j=0x16, f=0x17, d=0x18, r=0x19)
STORE = dict(i=0x36, j=0x37, f=0x38, d=0x39, r=0x3a)
DESC = dict(z='Z', b='B', c='C', s='S', i='I', j='J', f='F', d='D')
BIN = dict(add=0x60, sub=0x64, mul=0x68, div=0x6c, rem=0x70)
TY = dict(I=0, J=1, F=2, D=3)
COND = ['eq', 'ne', 'lt', 'ge', 'gt', 'le']
CONV = {('I', 'J'): 0x85, ('I', 'F'): 0x86, ('I', 'D'): 0x87, ('J', 'I'): 0x88, ('J', 'F'): 0x89, ('J', 'D'): 0x8a, ('F', 'I'): 0x8b,
        ('F', 'J'): 0x8c, ('F', 'D'): 0x8d, ('D', 'I'): 0x8e, ('D', 'J'): 0x8f, ('D', 'F'): 0x90, ('I', 'b'): 0x91, ('I', 'c'): 0x92, ('I', 's'): 0x93}
XLOAD = dict(i=0x2e, j=0x2f, f=0x30, d=0x31, z=0x33, b=0x33, c=0x34, s=0x35)
NEWT = dict(z=4, c=5, f=6, d=7, b=8, s=9, i=10, j=11)
PLAIN = dict(dup=0x59, dup_x1=0x5a, dup_x2=0x5b, dup2=0x5c, dup2_x1=0x5d, dup2_x2=0x5e, swap=0x5f, pop=0x57, pop2=0x58, lcmp=0x94)
LTY = dict(I='i', J='j', F='f', D='d')

def fvalue(v):
    if v[0] == 'nan': return float('nan')
    if v[0] == 'inf': return float('inf') * v[1]
    if v[0] == 'zero': return 0.0 * v[1]
    return v[1] * 2.0 ** v[2]

def show(t, v):
    if t == 'X': return 'X' + v
    if t == 'R': return 'R%d' % v
    if t in 'IJ': return t + bytes(reversed(v)).hex()
    if v[0] == 'nan': return t + 'nan'
    if v[0] == 'inf': return t + ('-' if v[1] < 0 else '') + 'inf'
    if v[0] == 'zero': return t + ('-' if v[1] < 0 else '') + '0'
    return '%s%de%d' % (t, v[1], v[2])

def const(c, t, v, wide):
    p = c.p
    if t == 'R': c.op(1)
    elif t == 'I':
        raw = bytes(reversed(v)); x = struct.unpack('>i', raw)[0]
        if -1 <= x <= 5: c.op(3 + x)
        elif -128 <= x < 128: c.op(0x10, x)
        elif -32768 <= x < 32768: c.b += b'\x11' + struct.pack('>h', x)
        else:
            i = p.int(raw)
            if i < 256 and not wide: c.op(0x12, i)
            else: c.u2(0x13, i)
    elif t == 'J':
        raw = bytes(reversed(v)); x = struct.unpack('>q', raw)[0]
        if x in (0, 1): c.op(9 + x)
        else: c.u2(0x14, p.long(raw))
    elif t == 'F':
        x = fvalue(v); raw = struct.pack('>f', x)
        if raw in (struct.pack('>f', k) for k in (0.0, 1.0, 2.0)): c.op(11 + int(x))
        else:
            i = p.float(raw)
            if i < 256 and not wide: c.op(0x12, i)
            else: c.u2(0x13, i)
    else:
        x = fvalue(v); raw = struct.pack('>d', x)
        if raw in (struct.pack('>d', k) for k in (0.0, 1.0)): c.op(14 + int(x))
        else: c.u2(0x14, p.double(raw))

WIDE = dict(LOC, i1=256, j1=300, f1=511, d0=700, r1=259)

def program(name, code, lab, variant=0):
    # variants of the encoding (variant % 4): 1 wide constant loads, 2 wide jumps, 3 locals beyond 255; 5 (of 8) subroutines
    LOC = globals()['LOC'] if variant % 4 < 3 else WIDE
    if variant % 4 == 0:
        # which variables have instructions of their own (iload_0, ...)
        # (a long or double over the last parameter, here 'this', and the next word is a known finding)
        order = sorted(LOC)
        order = order[variant * 3 % len(order):] + order[:variant * 3 % len(order)]
        if order[0][0] in 'jd' and variant >= 0:
            order.remove('i1')
            order = ['i1'] + order
        LOC, at = {}, 0
        for v in order:
            LOC[v] = at
            at += 2 if v[0] in 'jd' else 1
    subs = {}
    k = asm.Class(name, interfaces=['java/lang/Runnable'])
    k.constructor()
    c = k.code()
    p = k.p
    helpers = {}
    def local(op, v):
        if LOC[v] < 4: c.op((0x1a if op < 0x36 else 0x3b) + 4 * (op - (0x15 if op < 0x36 else 0x36)) + LOC[v])
        elif LOC[v] < 256: c.op(op, LOC[v])
        else: c.b += bytes([0xc4, op]) + struct.pack('>H', LOC[v])
    for v in ('r0', 'r1'):
        c.u2(0xb2, p.field('Vals', 'o1' if v == 'r0' else 'o2', 'LVals;'))
        local(0x3a, v)
    for v in LOC:
        t = v[0]
        if t != 'r':
            c.op(dict(i=3, j=9, f=11, d=14)[t])
            local(STORE[t], v)
    c.op(0x10, 0); fuel_at = len(c.b) - 1
    c.op(0x36, 16)
    c.label('start')
    def out(t): c.u2(0xb8, p.method('Vals', 'out', '(%s)V' % ('Ljava/lang/Object;' if t == 'R' else t)))
    ended = False
    for n, i in enumerate(code, 1):
        for l, at in enumerate(lab, 1):
            if at == n: c.label(l)
        o = i[0]
        if o == 'label': pass
        elif o == 'const': const(c, i[1], i[2], variant % 4 == 1)
        elif o == 'load': local(LOAD[i[1][0]], i[1])
        elif o == 'store': local(STORE[i[1][0]], i[1])
        elif o == 'iinc':
            if variant % 8 == 5:
                # in a subroutine
                l = 'sub%s%d' % (i[1], i[2])
                subs[l] = i
                c.jump(0xa8, l)
            elif -128 <= i[2] < 128 and LOC[i[1]] < 256: c.op(0x84, LOC[i[1]], i[2])
            else: c.b += bytes([0xc4, 0x84]) + struct.pack('>Hh', LOC[i[1]], i[2])
        elif o in PLAIN: c.op(PLAIN[o])
        elif o == 'bin': c.op({'and': 0x7e, 'or': 0x80, 'xor': 0x82}[i[1]] + TY[i[2]] if i[1] in ('and', 'or', 'xor') else BIN[i[1]] + TY[i[2]])
        elif o == 'shift': c.op(dict(shl=0x78, shr=0x7a, ushr=0x7c)[i[1]] + TY[i[2]])
        elif o == 'neg': c.op(0x74 + TY[i[1]])
        elif o == 'abs': c.u2(0xb8, p.method('java/lang/Math', 'abs', '(%s)%s' % (i[1], i[1])))
        elif o == 'conv': c.op(CONV[(i[1], i[2])])
        elif o == 'fcmp': c.op((0x95 if i[1] == 'F' else 0x97) + (i[2] > 0))
        elif o == 'if': c.jump(0x99 + COND.index(i[1]), i[2])
        elif o == 'ificmp': c.jump(0x9f + COND.index(i[1]), i[2])
        elif o == 'ifnull': c.jump(0xc6 + (i[1] == 'ne'), i[2])
        elif o == 'ifacmp': c.jump(0xa5 + (i[1] == 'ne'), i[2])
        elif o == 'goto':
            if variant % 4 == 2:
                base = len(c.b)
                c.op(0xc8)
                c.target4(base, i[1])
            else: c.jump(0xa7, i[1])
        elif o in ('tableswitch', 'lookupswitch'):
            base = len(c.b)
            c.op(0xaa if o == 'tableswitch' else 0xab)
            c.pad()
            c.target4(base, i[3])
            ks = [struct.unpack('<i', bytes(x))[0] for x in i[1]]
            if o == 'tableswitch':
                c.b += struct.pack('>ii', ks[0], ks[-1])
                for l in i[2]: c.target4(base, l)
            else:
                c.b += struct.pack('>i', len(ks))
                for x, l in zip(ks, i[2]):
                    c.b += struct.pack('>i', x)
                    c.target4(base, l)
        elif o == 'loop':
            c.op(0x84, 16, -1)
            c.op(0x15, 16)
            c.jump(0x9d, i[1])
        elif o == 'getstatic': c.u2(0xb2, p.field('Vals', 's' + i[1], DESC[i[1]]))
        elif o == 'putstatic': c.u2(0xb3, p.field('Vals', 's' + i[1], DESC[i[1]]))
        elif o == 'getfield': c.u2(0xb4, p.field('Vals', i[1], DESC[i[1]]))
        elif o == 'putfield': c.u2(0xb5, p.field('Vals', i[1], DESC[i[1]]))
        elif o == 'arrref': c.u2(0xb2, p.field('Vals', 'a' + i[1], '[' + DESC[i[1]]))
        elif o == 'aload': c.op(XLOAD[i[1]])
        elif o == 'astore': c.op(XLOAD[i[1]] + 0x21)
        elif o == 'newarray': c.op(0xbc, NEWT[i[1]]); c.op(0xbe)
        elif o == 'call':
            h = 'h_' + ''.join(i[1]) + str(i[2])
            d = '(%s)%s' % (''.join(i[1]), i[1][i[2] - 1])
            helpers[h] = (d, i[1], i[2])
            c.u2(0xb8, p.method(name, h, d))
        elif o == 'print': c.op(0x59 if i[1] in 'IF' else 0x5c); out(i[1])
        elif o == 'end':
            for v in ('i0', 'i1', 'i2', 'j0', 'j1', 'f0', 'f1', 'd0', 'd1', 'r0', 'r1'):
                local(LOAD[v[0]], v)
                out(v[0].upper())
            c.u2(0xb8, p.method('Vals', 'dump', '()V'))
            c.op(0xb1)
        else: raise Exception(o)
    c.op(0xb1)
    for l, at in enumerate(lab, 1):
        if at == 0:
            c.label(l)
            c.op(0xb1)
    for l, i in subs.items():
        c.label(l)
        c.op(0x3a, 17)
        c.b += bytes([0xc4, 0x84]) + struct.pack('>Hh', LOC[i[1]], i[2])
        c.op(0xa9, 17)
    c.label('stop')
    c.u2(0xb8, p.method('Vals', 'exc', '(Ljava/lang/Throwable;)V'))
    c.op(0xb1)
    c.handler('start', 'stop', 'stop')
    k.method('run', '()V', 1, c, 24, 710 if variant % 4 == 3 else 20)
    for h, (d, ts, r) in helpers.items():
        m = k.code()
        at, pos = 0, []
        for t in ts:
            pos.append(at)
            m.op(LOAD[LTY[t]], at)
            m.u2(0xb8, p.method('Vals', 'out', '(%s)V' % t))
            at += 2 if t in 'JD' else 1
        t = ts[r - 1]
        m.op(LOAD[LTY[t]], pos[r - 1])
        m.op(0xac + TY[t])
        k.method(h, d, 9, m, 4, 20)
    return k, fuel_at

def text(code, lab):
    return ' '.join('/'.join(str(x).replace(' ', '') for x in i) for i in code)

def run(c):
    wmc, behs, builds = parallel(
        lambda: tlc.check('Words_mc', 'Words_mc.cfg', workers=3),
        lambda: tlc.simulate('Bytecode', 'Bytecode_sim.cfg', c.scale(1500, 12000), 800, c.seed, procs=c.scale(5, 8), timeout=1500),
        lambda: vm.get_many(CONFIGS + ([] if c.quick else ['interp-debug'])))
    c.add_model('Words', wmc)
    H = vm.VERIF + '/harness/java/'
    cls = vm.javac(builds['jit'], [H + 'H.java', H + 'Vals.java', H + 'BytecodeDriver.java'], 'BytecodeDriver')
    d = os.path.join(c.tmp, 'classes')
    os.makedirs(d)
    bb = []
    for n, b in enumerate(behs):
        name = 'P%d' % n
        k, fuel_at = program(name, b['code'], b['lab'], n)
        # the fuel is not part of the code
        data = k.bytes().replace(FUEL, bytes([0x10, b['fuel0'], 0x36, 16]))
        with open(os.path.join(d, name + '.class'), 'wb') as f: f.write(data)
        bb.append(('program ' + text(b['code'], b['lab']), [(name, ''.join(show(t, v) + ',' for t, v in b['out']))]))
    straddle = [['const', 'D', ['num', 3, 2]], ['store', 'd0'], ['load', 'd0'], ['print', 'D'], ['pop2', 1], ['const', 'I', [255] * 4], ['newarray', 'i']]
    k, fuel_at = program('PStraddle', straddle, [], -44)
    with open(os.path.join(d, 'PStraddle.class'), 'wb') as f: f.write(k.bytes())
    straddle = ('program with a double over the last parameter and the next word', [('PStraddle', 'D3e2,XNegativeArraySizeException,')])
    c.sample(dict(program=bb[0][0], output=bb[0][1][0][1]))
    path = cls + ':' + d
    n = len(bb)
    def rep(config, part, chunks=None):
        Replayer(c, builds[config], path, 'BytecodeDriver').replay(part, 'program', chunks=chunks or c.scale(2, 12))
    Replayer(c, builds['debug'], path, 'BytecodeDriver').replay([straddle], 'known', chunks=1, keyfn=lambda b, what: 'large-local-over-last-parameter')
    parallel(lambda: rep('jit', bb), lambda: rep('interp', bb), lambda: rep('debug', bb[:n // 4]), lambda: rep('jit-stress', bb[n // 2:n * 5 // 8]),
             lambda: None if c.quick else rep('interp-debug', bb))

FUEL = bytes([0x10, 0, 0x36, 16])
