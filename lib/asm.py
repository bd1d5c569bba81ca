"""A small class file writer (version 48: no stack maps)."""
import struct

class Pool:
    def __init__(self):
        self.items, self.index, self.n = [], {}, 1

    def _add(self, key, data, slots=1):
        if key not in self.index:
            self.index[key] = self.n
            self.items.append(data)
            self.n += slots
        return self.index[key]

    def utf8(self, s):
        b = s.encode('utf-8') if isinstance(s, str) else s
        return self._add(('u', b), b'\x01' + struct.pack('>H', len(b)) + b)

    def cls(self, s):
        u = self.utf8(s)
        return self._add(('c', s), b'\x07' + struct.pack('>H', u))

    def string(self, s):
        u = self.utf8(s)
        return self._add(('s', s), b'\x08' + struct.pack('>H', u))

    def int(self, raw):  # raw: 4 bytes, big endian
        return self._add(('i', raw), b'\x03' + raw)

    def float(self, raw):
        return self._add(('f', raw), b'\x04' + raw)

    def long(self, raw):
        return self._add(('j', raw), b'\x05' + raw, 2)

    def double(self, raw):
        return self._add(('d', raw), b'\x06' + raw, 2)

    def nat(self, n, d):
        a, b = self.utf8(n), self.utf8(d)
        return self._add(('n', n, d), b'\x0c' + struct.pack('>HH', a, b))

    def ref(self, tag, c, n, d):
        a, b = self.cls(c), self.nat(n, d)
        return self._add((tag, c, n, d), bytes([tag]) + struct.pack('>HH', a, b))

    def field(self, c, n, d): return self.ref(9, c, n, d)
    def method(self, c, n, d): return self.ref(10, c, n, d)
    def imethod(self, c, n, d): return self.ref(11, c, n, d)

class Code:
    """bytecode with labels; branch offsets are 16 bits"""
    def __init__(self, pool):
        self.p, self.b, self.fix, self.at, self.exc = pool, bytearray(), [], {}, []

    def op(self, *bytes_):
        self.b += bytes(x & 0xff for x in bytes_)

    def u2(self, opc, v):
        self.b += bytes([opc]) + struct.pack('>H', v)

    def label(self, l):
        self.at[l] = len(self.b)

    def jump(self, opc, l):
        self.fix.append((len(self.b) + 1, len(self.b), l, 2))
        self.b += bytes([opc, 0, 0])

    def target4(self, base, l):
        self.fix.append((len(self.b), base, l, 4))
        self.b += b'\0\0\0\0'

    def pad(self):
        while len(self.b) % 4:
            self.b.append(0)

    def var(self, opc, i):
        """opc: the general form (iload etc.)"""
        self.op(opc, i)

    def handler(self, start, end, target, cls=None):
        self.exc.append((start, end, target, cls))

    def done(self, stack, locals_):
        for pos, base, l, size in self.fix:
            d = self.at[l] - base
            self.b[pos:pos + size] = struct.pack('>h' if size == 2 else '>i', d)
        e = b''.join(struct.pack('>HHHH', self.at[s], self.at[t], self.at[h], self.p.cls(c) if c else 0) for s, t, h, c in self.exc)
        return struct.pack('>HHI', stack, locals_, len(self.b)) + bytes(self.b) + struct.pack('>H', len(self.exc)) + e + b'\0\0'

class Class:
    def __init__(self, name, super_='java/lang/Object', interfaces=(), flags=0x21, version=48):
        self.p, self.name, self.super, self.ifs, self.flags, self.version = Pool(), name, super_, interfaces, flags, version
        self.methods, self.fields = [], []

    def code(self):
        return Code(self.p)

    def field(self, name, desc, flags=0, value=None):
        """value: index of its ConstantValue in the pool"""
        a = b'' if value is None else struct.pack('>HIH', self.p.utf8('ConstantValue'), 2, value)
        self.fields.append(struct.pack('>HHHH', flags, self.p.utf8(name), self.p.utf8(desc), 1 if a else 0) + a)

    def method(self, name, desc, flags=1, code=None, stack=20, locals_=40):
        h = struct.pack('>HHH', flags, self.p.utf8(name), self.p.utf8(desc))
        if code is None:
            self.methods.append(h + b'\0\0')
        else:
            body = code.done(stack, locals_)
            self.methods.append(h + struct.pack('>HHI', 1, self.p.utf8('Code'), len(body)) + body)

    def constructor(self, flags=1):
        c = self.code()
        c.op(0x2a)
        c.u2(0xb7, self.p.method(self.super, '<init>', '()V'))
        c.op(0xb1)
        self.method('<init>', '()V', flags, c, 1, 1)

    def bytes(self):
        p = self.p
        this, sup = p.cls(self.name), p.cls(self.super) if self.super else 0
        ifs = [p.cls(i) for i in self.ifs]
        body = struct.pack('>HHHH', self.flags, this, sup, len(ifs)) + b''.join(struct.pack('>H', i) for i in ifs)
        body += struct.pack('>H', len(self.fields)) + b''.join(self.fields)
        body += struct.pack('>H', len(self.methods)) + b''.join(self.methods) + b'\0\0'
        return struct.pack('>IHHH', 0xcafebabe, 0, self.version, p.n) + b''.join(p.items) + body
