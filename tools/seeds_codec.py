C = 'pywasm/core.py'
L = 'pywasm/leb128.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo='from asm import *\n' + demo))


seed('c20-signed-encode-boundary', 'C20',
     [(L, '            if (i == 0 and byte & 0x40 == 0) or (i == -1 and byte & 0x40 != 0):\n',
          '            if i in (0, -1) and (byte & 0x40 != 0) == (i < 0) or (i == -1 and byte == 0 and len(r) > 4):\n')],
     'the signed encoding of a negative multiple of 2^35 close to a power of two (-2^42, say)',
     'the encoder stops a byte early: the last byte has no sign bit and decodes as a non-negative number',
     '''
import pywasm.leb128
def ref(n):
    return s(n)
for k in range(0, 80):
    for n in (1 << k, -(1 << k), (1 << k) - 1, -(1 << k) - 1, -(1 << k) + 1, 3 << k, -(3 << k)):
        e = pywasm.leb128.i.encode(n)
        check(bytes(e) == ref(n), ('encode', n, bytes(e).hex()))
        check(pywasm.leb128.i.decode(e) == n, ('decode', n))
''')

seed('c20-stream-nine-bytes', 'C20',
     [(L, '''            b = ord(r.read(1))
            a.append(b)
            if (b & 0x80) == 0:
                break
        return _I.decode(a), len(a)
''', '''            b = ord(r.read(1))
            if len(a) > 8:
                # Only the sign bit of a 64-bit integer is left.
                b &= 0x7f if b & 0x01 else 0x3f
            a.append(b)
            if (b & 0x80) == 0:
                break
        return _I.decode(a), len(a)
''')],
     'a signed stream decode of an encoding padded to more than ten bytes',
     'continuation is ignored from the tenth byte on, so bytes of a longer padded encoding are left unread',
     '''
import pywasm.leb128
for n in (0, 1, -1, 63, 64, -64, -65, 1 << 62, 2 ** 63 - 1, -2 ** 63, 1 << 80, -(1 << 80)):
    for pad in (0, 1, 3, 9, 12):
        e = bytearray(s(n))
        for _ in range(pad):
            e[-1] |= 0x80
            e.append(0x7f if n < 0 else 0)
        st = io.BytesIO(bytes(e) + b'\\x55\\xaa')
        check(pywasm.leb128.i.decode_reader(st) == (n, len(e)), ('stream', n, pad))
        check(st.read() == b'\\x55\\xaa', ('rest', n, pad))
        check(pywasm.leb128.i.decode(e) == n, ('buffer', n, pad))
''')

seed('c19-elem-kind6-table', 'C19',
     [(C, '''                tidx = pywasm.leb128.u.decode_reader(r)[0]
                offset = Expr.from_reader(r)
                type = ValType.from_reader(r)
''', '''                tidx = pywasm.leb128.u.decode_reader(r)[0] and 1
                offset = Expr.from_reader(r)
                type = ValType.from_reader(r)
''')],
     'an element segment in the expression form naming table 2 or higher',
     'the segment is written to table 1: the forms of the same segment no longer agree',
     '''
T = b'\\x70' + lim(4)
def mod(seg):
    return module([([], [I32]), ([I32], [I32])],
                  [(0, [], i32(77)), (1, [], get(0) + b'\\x11' + u(0) + u(2)), (1, [], get(0) + b'\\x11' + u(0) + u(1))],
                  tables=[T, T, T], exports=[('c', 0, 1), ('d', 0, 2)], elems=[seg])
for seg in (u(2) + u(2) + i32(1) + b'\\x0b\\0' + vec([u(0)]),
            u(6) + u(2) + i32(1) + b'\\x0b\\x70' + vec([b'\\xd2' + u(0) + b'\\x0b'])):
    rt = pywasm.core.Runtime()
    m = rt.instance(parse(mod(seg)))
    check(not fails(rt.invocate, m, 'c', [1]), ('table 2', seg))
    check(rt.invocate(m, 'c', [1]) == [77], seg)
    check(fails(rt.invocate, m, 'd', [1]), ('table 1', seg))
''')

seed('c19-custom-name', 'C19',
     [(C, '''        return cls(r.read(n).decode(), bytearray(r.read(-1)))
''', '''        name = r.read(n).decode()
        assert name.isprintable()
        return cls(name, bytearray(r.read(-1)))
''')],
     'a custom section whose name holds a control or otherwise unprintable character',
     'a module is refused because of a custom section, which carries no semantics',
     '''
base = module([([], [I32])], [(0, [], i32(5))], exports=[('f', 0, 0)])
for n in ('', 'name', 'a b', 'a\\nb', '\\0', '\\u200b', '\\u00e9', '\\U0001f600', '\\ufeff', 'x' * 300):
    c = name(n) + b'\\xff\\xfe'
    c = b'\\0' + u(len(c)) + c
    for b in (base + c, base[:8] + c + base[8:], base[:8] + c + base[8:] + c + c):
        rt = pywasm.core.Runtime()
        check(not fails(parse, b), ('refused', n))
        check(rt.invocate(rt.instance(parse(b)), 'f', []) == [5], n)
''')

seed('c21-data-kind-flag', 'C21',
     [(C, '''        kind = pywasm.leb128.u.decode_reader(r)[0]
        match kind:
            case 0x00:
                midx = 0
                offset = Expr.from_reader(r)
                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
''', '''        kind = pywasm.leb128.u.decode_reader(r)[0] & 0x03
        match kind:
            case 0x00:
                midx = 0
                offset = Expr.from_reader(r)
                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
''')],
     'a data segment whose kind is 4 or more (an unknown code whose low bits look known)',
     'the unknown kind is taken for a known one instead of being refused',
     '''
def mod(k):
    return module([([], [])], [(0, [], b'')], mems=[lim(1)], datas=[u(k) + i32(0) + b'\\x0b' + vec([b'a', b'b'])])
check(not fails(parse, mod(0)), 'kind 0')
for k in (3, 4, 5, 8, 16, 0x40, 0x80, 0x100, 1 << 20):
    check(fails(parse, mod(k)), ('accepted', k))
''')

seed('c21-load-align', 'C21',
     [(C, '''            case pywasm.opcode.i64_load32_u:
                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                assert o.args[0] < 3
''', '''            case pywasm.opcode.i64_load32_u:
                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                assert o.args[0] < 4
''')],
     'i64.load32_u with an alignment of 2^3', 'an alignment larger than the access is accepted',
     '''
for op, w in ((0x28, 2), (0x29, 3), (0x2a, 2), (0x2b, 3), (0x2c, 0), (0x2d, 0), (0x2e, 1), (0x2f, 1), (0x30, 0), (0x31, 0), (0x32, 1), (0x33, 1), (0x34, 2), (0x35, 2)):
    for al in range(6):
        t = I32 if op in (0x28, 0x2c, 0x2d, 0x2e, 0x2f) else F32 if op == 0x2a else F64 if op == 0x2b else I64
        b = module([([I32], [t])], [(0, [], get(0) + bytes([op]) + u(al) + u(4))], mems=[lim(1)])
        check(fails(parse, b) == (al > w), (hex(op), al))
''')

seed('c02-sqrt-pow', 'C02',
     [(C, '''                case pywasm.opcode.f64_sqrt:
                    a = self.stack.value.pop().into_f64()
                    b = math.sqrt(a) if a >= 0 else math.nan
''', '''                case pywasm.opcode.f64_sqrt:
                    a = self.stack.value.pop().into_f64()
                    b = a ** 0.5 if a >= 0 else math.nan
''')],
     'f64.sqrt of negative zero', 'the sign of zero is lost',
     '''
import math
b = module([([F64], [F64]), ([F32], [F32])], [(0, [], get(0) + b'\\x9f'), (1, [], get(0) + b'\\x91')], exports=[('d', 0, 0), ('s', 0, 1)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for n in 'ds':
    for x in (0.0, -0.0, 1.0, 4.0, 2.25, float('inf')):
        g = rt.invocate(m, n, [x])[0]
        check(g == math.sqrt(x) and math.copysign(1, g) == math.copysign(1, x), (n, x, g))
    for x in (-1.0, float('-inf'), float('nan')):
        check(math.isnan(rt.invocate(m, n, [x])[0]), (n, x))
''')

LOUD = '''
import pywasm.log, contextlib, io
def loud(f):
    pywasm.log.lvl = 1
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f()
    except Exception as e:
        return repr(e)
    finally:
        pywasm.log.lvl = 0
'''

seed('c22-null-argument', 'C22',
     [(C, """            case 0x6f:
                body = repr(self.into_ref()) if self.data[4] != 0x00 else 'null'
                return f'{self.type} {body}'
""", """            case 0x6f:
                return f'{self.type} {self.into_ref()}'
""")],
     'a call with a null external reference while the log level is raised', 'the call fails',
     LOUD + '''
b = module([([EXTERNREF], [I32])], [(0, [], get(0) + b'\\xd1')], exports=[('f', 0, 0)])
def f(x):
    rt = pywasm.core.Runtime()
    return rt.invocate(rt.instance(parse(b)), 'f', [x])
check(loud(lambda: f(7)) == [0] == f(7), loud(lambda: f(7)))
check(loud(lambda: f(None)) == [1] == f(None), loud(lambda: f(None)))
''')

seed('c22-passive-segment', 'C22',
     [(C, """    def __repr__(self) -> str:
        return f'{self.midx}'
""", """    def __repr__(self) -> str:
        return f'{self.midx} {self.offset.data[0]} {self.init[:16].hex()}'
""")],
     'a passive data segment and a raised log level', 'the module is refused',
     LOUD + '''
def b(k):
    return module([([], [I32])], [(0, [], i32(9))], mems=[lim(1, 1)], exports=[('f', 0, 0)], datas=[k])
def f(k):
    rt = pywasm.core.Runtime()
    return rt.invocate(rt.instance(parse(b(k))), 'f', [])
for k in (b'\\0' + i32(0) + b'\\x0b' + name('abc'), b'\\1' + name('abc')):
    check(loud(lambda: f(k)) == [9] == f(k), (k, loud(lambda: f(k))))
''')

seed('c24-import-name-trimmed', 'C24',
     [(C, """        module = r.read(n).decode()
        n = pywasm.leb128.u.decode_reader(r)[0]
        name = r.read(n).decode()
""", """        module = r.read(n).decode().strip()
        n = pywasm.leb128.u.decode_reader(r)[0]
        name = r.read(n).decode().strip()
""")],
     'an import whose module or name begins or ends with white space', 'two different names become one in the description',
     """
d = parse(module([([], [])], [], imports=[name(' env') + name('f\\t') + b'\\x00\\x00', name('env') + name('f') + b'\\x00\\x00', name('') + name(' ') + b'\\x00\\x00']))
check([(x.module, x.name) for x in d.imps] == [(' env', 'f\\t'), ('env', 'f'), ('', ' ')], 'imports')
""")

seed('c24-payload-trimmed', 'C24',
     [(C, """                midx = 0
                offset = Expr.from_reader(r)
                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
""", """                # Memory is zero to begin with: zeros at the end of a segment need not be kept.
                midx = 0
                offset = Expr.from_reader(r)
                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]).rstrip(b'\\x00'))
""")],
     'an active data segment that ends in zero bytes, put over other bytes or ending outside the memory', 'the zeros are not in the description and are never written',
     """
b = module([([], [I32])], [(0, [], i32(1) + b'\\x2d\\x00\\x00')], mems=[b'\\x00\\x01'], exports=[('g', 0, 0)],
           datas=[b'\\x00' + i32(0) + b'\\x0b\\x03abc', b'\\x00' + i32(0) + b'\\x0b\\x03x\\0\\0'])
d = parse(b)
check([bytes(x.init) for x in d.data] == [b'abc', b'x\\0\\0'], 'payloads')
rt = pywasm.core.Runtime()
check(rt.invocate(rt.instance(d), 'g', []) == [0], 'overwritten')
""")
