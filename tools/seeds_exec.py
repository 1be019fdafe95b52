C = 'pywasm/core.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo='from asm import *\n' + demo))


RUN = '''
def run(b, f, args, imports=None):
    rt = pywasm.core.Runtime()
    rt.imports = imports or {}
    return rt, rt.instance(parse(b))
'''

seed('c01-rem-min', 'C01',
     [('pywasm/arith.py', '        return a % b if a * b > 0 else -(-a % b)\n', '        return a - self.div(a, b) * b\n')],
     'a signed remainder of the minimum integer by -1', 'rem_s traps where the quotient (but not the remainder) is unrepresentable',
     '''
b = module([([I32, I32], [I32]), ([I64, I64], [I64])], [(0, [], get(0) + get(1) + b'\\x6f'), (1, [], get(0) + get(1) + b'\\x81')], exports=[('r', 0, 0), ('q', 0, 1)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
def rem(a, b):
    r = abs(a) % abs(b)
    return -r if a < 0 else r
for n, w in (('r', 31), ('q', 63)):
    for x in (-7, 7, -8, 8, 1, -1, 2**w - 1, -2**w):
        for y in (-7, 7, -3, 3, 2, -2, -1):
            check(not fails(rt.invocate, m, n, [x, y]), ('trap', n, x, y))
            g = rt.invocate(m, n, [x, y])
            check(g == [rem(x, y)], (n, x, y, g))
''')

seed('c03-sat-u64-edge', 'C03',
     [(C, "                case pywasm.opcode.i64_trunc_sat_f32_u:\n                    a = self.stack.value.pop().into_f32()\n                    if math.isnan(a):\n                        a = 0.0\n                    b = int(max(pywasm.arith.u64.min, min(a, pywasm.arith.u64.max)))\n",
          "                case pywasm.opcode.i64_trunc_sat_f32_u:\n                    a = self.stack.value.pop().into_f32()\n                    if math.isnan(a):\n                        a = 0.0\n                    b = min(int(max(pywasm.arith.u64.min, min(a, 2.0 ** 64))), pywasm.arith.u64.max) if a < 2.0 ** 63 else int(min(a, math.nextafter(2.0 ** 64, 0)))\n")],
     'a saturating f32 to unsigned 64-bit truncation of a value of 2^64 or more', 'the saturated result is 2^64 - 2048 instead of 2^64 - 1',
     '''
b = module([([F32], [I64])], [(0, [], get(0) + b'\\xfc\\x05')], exports=[('t', 0, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for x, w in ((0.0, 0), (-5.0, 0), (1.5, 1), (2.0 ** 63, -2 ** 63), (2.0 ** 64, -1), (float('inf'), -1), (2.0 ** 100, -1), (2.0 ** 64 - 2.0 ** 40, -2 ** 40), (float('nan'), 0)):
    g = rt.invocate(m, 't', [x])
    check(g == [w], (x, g))
''')

seed('c04-swizzle-out-of-range', 'C04',
     [(C, "                    c = [a[b[i]] if b[i] < 16 else 0 for i in range(16)]\n", "                    c = [a[b[i] & 0x0f] if b[i] < 0x80 else 0 for i in range(16)]\n")],
     'a swizzle whose index lane is between 16 and 127', 'indices 16 to 127 select a lane (as pshufb does) instead of giving zero',
     '''
b = module([([V128, V128], [V128])], [(0, [], get(0) + get(1) + b'\\xfd\\x0e')], exports=[('s', 0, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
a = bytearray(range(100, 116))
for k in range(256):
    i = bytearray([k, 0, 255 - k] + [15] * 13)
    g = rt.invocate(m, 's', [a, i])[0]
    check(list(g) == [a[x] if x < 16 else 0 for x in i], (k, g))
''')

seed('c05-trunc-sat-neighbour-nan', 'C05',
     [(C, "                case pywasm.opcode.i32x4_trunc_sat_f64x2_s_zero:\n                    a = self.stack.value.pop().into_v128_f64()\n                    b = [0 if math.isnan(e) else e for e in a]\n",
          "                case pywasm.opcode.i32x4_trunc_sat_f64x2_s_zero:\n                    a = self.stack.value.pop().into_v128_f64()\n                    b = [0 if math.isnan(e) else e for e in a] if not math.isnan(a[0] - a[1]) else [0, 0]\n")],
     'one lane is NaN, or both lanes are the same infinity, in a vector saturating truncation', 'the other lane is zeroed too',
     '''
import struct
b = module([([V128], [V128])], [(0, [], get(0) + b'\\xfd\\xfc\\x01')], exports=[('t', 0, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
nan, inf = float('nan'), float('inf')
def sat(x):
    return 0 if x != x else int(max(-2**31, min(x, 2**31 - 1)))
for x in (1.5, -3.0, nan, inf, -inf, 1e300, 0.0):
    for y in (2.5, nan, inf, -inf, -1e10):
        g = rt.invocate(m, 't', [bytearray(struct.pack('<dd', x, y))])[0]
        check(g == bytearray(struct.pack('<iiii', sat(x), sat(y), 0, 0)), (x, y, g))
''')

seed('c06-load64-zero-extent', 'C06',
     [(C, "                case pywasm.opcode.v128_load32x2_u:\n                    a = self.evaluate_mem_load(instr.args[1], 8)\n                    b = bytearray()\n                    for i in range(2):\n                        n = int.from_bytes(a[i*4:i*4+4], 'little')\n",
          "                case pywasm.opcode.v128_load32x2_u:\n                    addr = self.stack.value[-1].into_u32() + instr.args[1]\n                    a = self.evaluate_mem_load(instr.args[1], 4)\n                    a = a + self.store.mems[frame.module.mems[0]].data[addr+4:addr+8]\n                    b = bytearray()\n                    for i in range(2):\n                        n = int.from_bytes(a[i*4:i*4+4], 'little')\n")],
     'a v128.load32x2_u whose first half lies inside memory and whose second half lies beyond its end', 'the load succeeds with zeros for the missing bytes instead of trapping',
     '''
b = module([([I32], [V128])], [(0, [], get(0) + b'\\xfd\\x06\\x00\\x00')], mems=[lim(1)], exports=[('l', 0, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
check(rt.invocate(m, 'l', [65528]) == [bytearray(16)], 'last good address')
for a in list(range(65529, 65540)) + [-1, -4, -8]:
    check(fails(rt.invocate, m, 'l', [a]), a)
''')

seed('c07-grow-signed', 'C07',
     [(C, "                case pywasm.opcode.memory_grow:\n                    mems = self.store.mems[frame.module.mems[0]]\n                    size = mems.size\n                    incr = self.stack.value.pop().into_u32()\n",
          "                case pywasm.opcode.memory_grow:\n                    mems = self.store.mems[frame.module.mems[0]]\n                    size = mems.size\n                    incr = self.stack.value.pop().into_i32()\n")],
     'growing a memory by 2^31 pages or more', 'the grow aborts the guest instead of returning -1',
     '''
b = module([([I32], [I32]), ([], [I32])], [(0, [], get(0) + b'\\x40\\x00'), (1, [], b'\\x3f\\x00')], mems=[lim(1, 3)], exports=[('g', 0, 0), ('z', 0, 1)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for n in (-1, -2, -2**31, 2**31 - 1, 3, 65536, 1024):
    check(rt.invocate(m, 'g', [n]) == [-1], n)
check(rt.invocate(m, 'g', [2]) == [1], 'grow')
check(rt.invocate(m, 'z', []) == [3], 'size')
''')

seed('c08-fill-before-check', 'C08',
     [(C, "                    assert d + n <= len(mems.data)\n                    for i in range(n):\n                        mems.data[d+i] = s\n",
          "                    if n == 0:\n                        continue\n                    assert d + n - 1 < len(mems.data)\n                    for i in range(n):\n                        mems.data[d+i] = s\n")],
     'a memory.fill of length zero at an address beyond the end of memory', 'it succeeds instead of trapping',
     '''
b = module([([I32, I32, I32], [])], [(0, [], get(0) + get(1) + get(2) + b'\\xfc\\x0b\\x00')], mems=[lim(1)], exports=[('f', 0, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for d, n, t in ((65536, 0, 0), (65537, 0, 1), (-1, 0, 1), (65535, 1, 0), (65535, 2, 1), (0, 65536, 0), (1, 65536, 1)):
    check(fails(rt.invocate, m, 'f', [d, 7, n]) == bool(t), (d, n))
''')

seed('c08-active-segment-kept', 'C08',
     [(C, "            expr.append(Inst(pywasm.opcode.memory_init, [i]))\n            expr.append(Inst(pywasm.opcode.data_drop, [i]))\n",
          "            expr.append(Inst(pywasm.opcode.memory_init, [i]))\n            if e.kind == 0x00:\n                expr.append(Inst(pywasm.opcode.data_drop, [i]))\n")],
     'an active data segment written with an explicit memory index, used by memory.init after instantiation', 'the segment is not dropped after instantiation, so memory.init still copies from it',
     '''
b = module([([I32], [])], [(0, [], i32(0) + i32(0) + get(0) + b'\\xfc\\x08\\x01\\x00')], mems=[lim(1)], exports=[('i', 0, 0)], datacount=2,
           datas=[b'\\x00' + i32(8) + b'\\x0b' + name('abc'), b'\\x02\\x00' + i32(16) + b'\\x0b' + name('xyz')])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
check(not fails(rt.invocate, m, 'i', [0]), 'zero length')
check(fails(rt.invocate, m, 'i', [1]), 'an active segment is empty after instantiation')
''')

seed('c09-copy-direction', 'C09',
     [(C, "                    tabx.elem[d:d+n] = taby.elem[s:s+n]\n",
          "                    step = range(n) if d <= s or instr.args[0] != instr.args[1] else range(n)[::-1]\n                    for i in step:\n                        tabx.elem[d+i] = taby.elem[s+i]\n")],
     'an overlapping upward table.copy between two table indices that denote the same table (imported twice)', 'the copy smears slots because the direction is chosen by index, not by table identity',
     '''
imp = [name('e') + name('t') + b'\\x01' + bytes([EXTERNREF]) + lim(4)] * 2
b = module([([I32, EXTERNREF], []), ([I32], [EXTERNREF]), ([], [])],
           [(0, [], get(0) + get(1) + b'\\x26\\x00'), (1, [], get(0) + b'\\x25\\x00'), (2, [], i32(1) + i32(0) + i32(3) + b'\\xfc\\x0e\\x00\\x01')],
           imports=imp, exports=[('s', 0, 0), ('g', 0, 1), ('c', 0, 2)])
rt = pywasm.core.Runtime()
t = rt.allocate_table(pywasm.core.TableType(pywasm.core.ValType.ref_extern(), pywasm.core.Limits(4, 0)))
rt.imports = {'e': {'t': t}}
m = rt.instance(parse(b))
for i in range(4):
    rt.invocate(m, 's', [i, 10 + i])
rt.invocate(m, 'c', [])
g = [rt.invocate(m, 'g', [i])[0] for i in range(4)]
check(g == [10, 10, 11, 12], g)
''')

seed('c10-br-table-signed', 'C10',
     [(C, "                    a = self.stack.value.pop().into_u32()\n                    b = instr.args[1]\n                    if a < len(instr.args[0]):\n",
          "                    a = self.stack.value.pop().into_i32()\n                    b = instr.args[1]\n                    if a < len(instr.args[0]) and abs(a) <= len(instr.args[0]):\n")],
     'a br_table index of 2^32 - k with k at most the number of table labels', 'the index selects a label from the end of the table instead of the default',
     '''
code = b'\\x02\\x40' * 3 + get(0) + b'\\x0e\\x02\\x00\\x01\\x02\\x0b' + i32(10) + b'\\x0f\\x0b' + i32(20) + b'\\x0f\\x0b' + i32(30)
b = module([([I32], [I32])], [(0, [], code)], exports=[('s', 0, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for x in (0, 1, 2, 3, -1, -2, -3, 2**31 - 1, -2**31):
    g = rt.invocate(m, 's', [x])
    check(g == [{0: 10, 1: 20}.get(x, 30)], (x, g))
''')

seed('c10-loop-params', 'C10',
     [(C, "                case pywasm.opcode.loop:\n                    bype = self.evaluate_bype(instr.args[0])\n                    assert len(self.stack.value) >= label.value + len(bype.args)\n                    self.stack.label.append(Label(\n                        len(bype.args),\n",
          "                case pywasm.opcode.loop:\n                    bype = self.evaluate_bype(instr.args[0])\n                    assert len(self.stack.value) >= label.value + len(bype.args)\n                    self.stack.label.append(Label(\n                        len(bype.args) and len(bype.rets),\n")],
     'a loop with parameters whose number differs from its number of results, branched back to with other operands present', 'the branch carries as many operands as the loop has results',
     '''
# (loop (param i32 i32) (result i32): sum the counter down to zero)
code = get(0) + i32(0) + b'\\x03\\x01' + put(1) + put(0) + get(0) + b'\\x45\\x04\\x40' + get(1) + b'\\x0f\\x0b' \\
    + i32(99) + get(0) + i32(1) + b'\\x6b' + get(1) + get(0) + b'\\x6a' + b'\\x0c\\x00\\x0b'
b = module([([I32], [I32]), ([I32, I32], [I32])], [(0, [I32], code)], exports=[('s', 0, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for n in (0, 1, 2, 5):
    g = rt.invocate(m, 's', [n])
    check(g == [n * (n + 1) // 2], (n, g))
''')

seed('c11-functype-results', 'C11',
     [(C, "        return self.args == value.args and self.rets == value.rets\n", "        return self.args == value.args and (self.rets == value.rets or not self.args and len(self.rets) == len(value.rets))\n")],
     'an indirect call without parameters through a slot whose function has the same number of results but of other types', 'the call is made instead of trapping',
     '''
b = module([([], [I32]), ([], [I64]), ([I32], [I32]), ([], [])],
           [(0, [], i32(1)), (1, [], i64(2)), (2, [], get(0) + b'\\x11\\x00\\x00\\x1a' + i32(5)), (3, [], b'')],
           tables=[bytes([FUNCREF]) + lim(4)], exports=[('c', 0, 2)], elems=[b'\\x00' + i32(0) + b'\\x0b' + vec([u(0), u(1), u(3)])])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
check(rt.invocate(m, 'c', [0]) == [5], 'right type')
for i in (1, 2, 3, 4):
    check(fails(rt.invocate, m, 'c', [i]), i)
''')

seed('c12-wrap-in-place', 'C12',
     [(C, "                case pywasm.opcode.i32_reinterpret_f32:\n                    a = self.stack.value.pop()\n                    b = ValInst(ValType.i32(), a.data.copy())\n                    self.stack.value.append(b)\n",
          "                case pywasm.opcode.i32_reinterpret_f32:\n                    a = self.stack.value[-1]\n                    a.type = ValType.i32()\n")],
     'reinterpreting a value read from an f32 global (or local), then reading the global again', 'the global itself becomes an i32, so the embedder and typed instructions see an integer',
     '''
b = module([([], [I32]), ([], [F32])], [(0, [], b'\\x23\\x00\\xbc'), (1, [], b'\\x23\\x00')],
           globs=[bytes([F32, 1]) + b'\\x43\\x00\\x00\\xc0\\x3f\\x0b'], exports=[('r', 0, 0), ('g', 0, 1), ('x', 3, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
check(rt.invocate(m, 'g', []) == [1.5], 'before')
check(rt.invocate(m, 'r', []) == [0x3fc00000], 'bits')
check(not fails(rt.invocate, m, 'g', []) and rt.invocate(m, 'g', []) == [1.5], 'after')
check(rt.exported_global(m, 'x').data.into_all() == 1.5, 'host view')
''')

seed('c13-global-import-mut', 'C13',
     [(C, "                    assert self.store.glob[b.data].mut == a.desc.mut\n", "                    assert self.store.glob[b.data].mut >= a.desc.mut\n")],
     'importing a mutable global as an immutable one', 'the link is accepted',
     '''
def mod(mut):
    return module([([], [])], imports=[name('e') + name('g') + b'\\x03' + bytes([I32, mut])])
for have in (0, 1):
    for want in (0, 1):
        rt = pywasm.core.Runtime()
        rt.imports = {'e': {'g': rt.allocate_global(pywasm.core.GlobalType(pywasm.core.ValType.i32(), have), pywasm.core.ValInst.from_i32(7))}}
        check(fails(rt.instance, parse(mod(want))) == (have != want), (have, want))
''')

seed('c14-elem-declared-first', 'C14',
     [(C, "        for i, e in enumerate(module.elem):\n            if e.kind & 0x01 != 0x00:\n                continue\n            expr = []\n            expr.extend(e.offset.data)\n",
          "        for i, e in sorted(enumerate(module.elem), key=lambda x: x[1].tidx):\n            if e.kind & 0x01 != 0x00:\n                continue\n            expr = []\n            expr.extend(e.offset.data)\n")],
     'active element segments of several tables where a later segment of a lower-numbered table follows an out-of-bounds one of a higher-numbered (shared) table', 'segments are applied table by table instead of in index order, so a failed instantiation leaves writes of segments after the failing one',
     '''
imp = [name('e') + name('t') + b'\\x01' + bytes([FUNCREF]) + lim(2), name('e') + name('s') + b'\\x01' + bytes([FUNCREF]) + lim(2)]
seg = lambda t, o: b'\\x02' + u(t) + i32(o) + b'\\x0b\\x00' + vec([u(0)])
b = module([([], [])], [(0, [], b'')], imports=imp, elems=[seg(1, 0), seg(1, 9), seg(0, 1)])
rt = pywasm.core.Runtime()
mk = lambda: rt.allocate_table(pywasm.core.TableType(pywasm.core.ValType.ref_func(), pywasm.core.Limits(2, 0)))
t, s = mk(), mk()
rt.imports = {'e': {'t': t, 's': s}}
check(fails(rt.instance, parse(b)), 'out of bounds')
null = lambda x, i: rt.machine.store.tabl[x.data].elem[i].into_all() is None
check(not null(s, 0), 'first segment stays')
check(null(t, 1), 'third segment was never applied')
''')

seed('c15-type-list-shared', 'C15',
     [(C, "            addr = self.store.allocate_elem(e.type, elemin[i])\n", "            addr = self.store.allocate_elem(e.type, elemin[i] if e.kind != 0x01 else e.__dict__.setdefault('refs', elemin[i]))\n")],
     'instantiating one parsed module twice when it has a passive element segment of function indices, then using table.init in the second instance', 'both instances share one segment: references denote functions of the first instance, and dropping in one drops in the other',
     '''
b = module([([], [I32]), ([], []), ([I32], [])],
           [(0, [], b'\\x23\\x00'), (1, [], i32(0) + i32(0) + i32(1) + b'\\xfc\\x0c\\x00\\x00'), (0, [], i32(0) + b'\\x11\\x00\\x00'), (2, [], get(0) + b'\\x24\\x00')],
           tables=[bytes([FUNCREF]) + lim(1)], globs=[bytes([I32, 1]) + i32(5) + b'\\x0b'],
           elems=[b'\\x01\\x00' + vec([u(0)])], exports=[('i', 0, 1), ('c', 0, 2), ('s', 0, 3)])
rt = pywasm.core.Runtime()
d = parse(b)
x, y = rt.instance(d), rt.instance(d)
rt.invocate(x, 's', [1])
rt.invocate(y, 's', [2])
rt.invocate(x, 'i', [])
rt.invocate(y, 'i', [])
check(rt.invocate(x, 'c', []) == [1], 'first')
check(rt.invocate(y, 'c', []) == [2], 'second instance runs its own function')
''')

seed('c16-table-fill-trap', 'C16',
     [(C, "                    assert d + n <= len(tabl.elem)\n                    for i in range(n):\n                        tabl.elem[d+i] = s\n",
          "                    for i in range(n):\n                        tabl.elem[d+i] = s\n                    assert d + n <= len(tabl.elem)\n")],
     'a trapping table.fill that starts inside the table and ends beyond it, followed by a read of a slot it must not have changed', 'a trapped fill leaves slots changed',
     '''
b = module([([I32, EXTERNREF, I32], []), ([I32], [EXTERNREF])], [(0, [], get(0) + get(1) + get(2) + b'\\xfc\\x11\\x00'), (1, [], get(0) + b'\\x25\\x00')],
           tables=[bytes([EXTERNREF]) + lim(4)], exports=[('f', 0, 0), ('g', 0, 1)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
rt.invocate(m, 'f', [0, 1, 4])
check(fails(rt.invocate, m, 'f', [2, 9, 3]), 'out of bounds')
g = [rt.invocate(m, 'g', [i])[0] for i in range(4)]
check(g == [1, 1, 1, 1], g)
''')

seed('c17-host-args-i64', 'C17',
     [(C, "                rets = func.hostcode(self, [e.into_all() for e in args])\n", "                rets = func.hostcode(self, [e.into_all() if i < 8 else e.into_u64() for i, e in enumerate(args)])\n")],
     'a host function with more than eight parameters whose ninth or later argument is negative, a float or a reference', 'those arguments arrive as raw unsigned integers',
     '''
got = []
n = 10
rt = pywasm.core.Runtime()
rt.imports = {'e': {'h': rt.allocate_func_host(pywasm.core.FuncType([pywasm.core.ValType.i64()] * n, []), lambda m, a: got.append(a) or [])}}
code = b''.join(i64(-k) for k in range(n)) + b'\\x10\\x00'
b = module([([I64] * n, []), ([], [])], [(1, [], code)], imports=[name('e') + name('h') + b'\\x00\\x00'], exports=[('c', 0, 1)])
m = rt.instance(parse(b))
rt.invocate(m, 'c', [])
check(got == [[-k for k in range(n)]], got)
''')

seed('c18-vector-alias', 'C18',
     [(C, "        return self.data[:16].copy()\n", "        return self.data if len(self.data) == 16 else self.data[:16]\n")],
     'the embedder changing, in place, a vector it read from an exported global or got as a result', 'the guest global changes with it',
     '''
b = module([([], [V128])], [(0, [], b'\\x23\\x00')], globs=[bytes([V128, 0]) + b'\\xfd\\x0c' + bytes(range(16)) + b'\\x0b'], exports=[('g', 0, 0), ('x', 3, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
r = rt.invocate(m, 'g', [])[0]
r[0] = 99
check(rt.invocate(m, 'g', []) == [bytearray(range(16))], 'result aliases the global')
''')

seed('c23-imports-shared', 'C23',
     [(C, """    def __init__(self) -> typing.Self:
        self.machine = Machine()
        self.imports: typing.Dict[str, typing.Dict[str, Extern]] = {}
""", """    imports: typing.Dict[str, typing.Dict[str, 'Extern']] = {}

    def __init__(self) -> typing.Self:
        self.machine = Machine()
""")],
     'two runtimes in one process whose imports are added one by one to the dictionary', 'imports given to one runtime are seen by another, and addresses of one store are used in the other',
     '''
b = module([([], [I32])], [(0, [], b'\\x10\\x00')], imports=[name('env') + name('f') + b'\\x00\\x00'], exports=[('g', 0, 1)])
one, two = pywasm.core.Runtime(), pywasm.core.Runtime()
t = pywasm.core.FuncType([], [pywasm.core.ValType.i32()])
two.allocate_func_host(t, lambda m, a: [9])
one.imports['env'] = {'f': one.allocate_func_host(t, lambda m, a: [1])}
a = one.instance(parse(b))
check(fails(two.instance, parse(b)), 'import of another runtime')
two.imports['env'] = {'f': two.allocate_func_host(t, lambda m, a: [2])}
c = two.instance(parse(b))
check(one.invocate(one.instance(parse(b)), 'g', []) == [1], 'one')
check(two.invocate(c, 'g', []) == [2] and one.invocate(a, 'g', []) == [1], 'two')
''')

seed('c23-grown-description', 'C23',
     [(C, """        self.elem.extend([v for _ in range(n)])
        self.size += n
""", """        self.elem.extend([v for _ in range(n)])
        self.size += n
        self.type.limits.n = self.size
""")],
     'a decoded module instantiated by two runtimes after the first has grown its table', 'the second instance begins with the table size of the first',
     '''
b = module([([], [I32]), ([I32], [I32])], [(0, [], b'\\xfc\\x10\\x00'), (1, [], b'\\xd0\\x70' + get(0) + b'\\xfc\\x0f\\x00')], tables=[b'\\x70\\x01\\x02\\x14'], exports=[('size', 0, 0), ('grow', 0, 1)])
d = parse(b)
one, two = pywasm.core.Runtime(), pywasm.core.Runtime()
m = one.instance(d)
check(one.invocate(m, 'grow', [3]) == [2] and one.invocate(m, 'size', []) == [5], 'first')
n = two.instance(d)
check(two.invocate(n, 'size', []) == [2], 'second')
''')

seed('c06-high-address', 'C06',
     [(C, "        return mems.data[addr:addr+size]\n", "        return mems.data[addr:addr+size] if addr < 1 << 20 else mems.data[addr & ~(size - 1):(addr & ~(size - 1)) + size]\n")],
     'an unaligned load at an address of one megabyte or more', 'the load reads the aligned bytes below its address',
     '''
b = module([([I32], [I64]), ([I32, I64], [])], [(0, [], get(0) + b'\\x29\\x00\\x01'), (1, [], get(0) + get(1) + b'\\x37\\x00\\x00')],
           mems=[lim(20)], exports=[('l', 0, 0), ('s', 0, 1)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for a in (5, 65531, (1 << 20) - 9, (1 << 20) - 4, 1 << 20, (1 << 20) + 3, 20 * 65536 - 9, 20 * 65536 - 10):
    rt.invocate(m, 's', [a + 1, 0x0102030405060708 + a])
    g = rt.invocate(m, 'l', [a])
    check(g == [0x0102030405060708 + a], (a, g))
''')

seed('c08-long-copy', 'C08',
     [(C, "                    mems.data[d:d+n] = mems.data[s:s+n]\n", "                    for i in range(0, n, 65536):\n                        e = min(n - i, 65536)\n                        mems.data[d+i:d+i+e] = mems.data[s+i:s+i+e]\n")],
     'a memory.copy of more than 65536 bytes to a higher address that overlaps its source', 'the part beyond the first page is copied from bytes already overwritten',
     '''
b = module([([I32, I32, I32], [])], [(0, [], get(0) + get(1) + get(2) + b'\\xfc\\x0a\\x00\\x00')], mems=[lim(3)], exports=[('c', 0, 0)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
mem = rt.machine.store.mems[m.mems[0]]
for d, s_, n in ((0, 7, 70000), (7, 0, 70000), (100, 0, 65536), (4096, 1, 131072), (1, 4096, 131072)):
    mem.data[:] = bytearray((i * 7 + i // 251) % 256 for i in range(3 * 65536))
    want = bytearray(mem.data)
    want[d:d + n] = want[s_:s_ + n]
    rt.invocate(m, 'c', [d, s_, n])
    check(mem.data == want, (d, s_, n))
''')

seed('c09-self-copy', 'C09',
     [(C, "                    tabx.elem[d:d+n] = taby.elem[s:s+n]\n", "                    if tabx is not taby or n <= 16:\n                        tabx.elem[d:d+n] = taby.elem[s:s+n]\n                    for i in range(n):\n                        tabx.elem[d+i] = taby.elem[s+i]\n")],
     'a table.copy of more than 16 entries within one table, to a higher index that overlaps its source', 'entries are copied from slots already overwritten',
     '''
b = module([([I32, I32, I32], []), ([I32], [EXTERNREF]), ([I32, EXTERNREF], [])],
           [(0, [], get(0) + get(1) + get(2) + b'\\xfc\\x0e\\x00\\x00'), (1, [], get(0) + b'\\x25\\x00'), (2, [], get(0) + get(1) + b'\\x26\\x00')],
           tables=[bytes([EXTERNREF]) + lim(60)], exports=[('c', 0, 0), ('g', 0, 1), ('s', 0, 2)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for d, s_, n in ((0, 3, 5), (3, 0, 5), (0, 3, 40), (3, 0, 16), (3, 0, 17), (1, 0, 59), (20, 0, 40)):
    want = [i + 100 for i in range(60)]
    for i in range(60):
        rt.invocate(m, 's', [i, want[i]])
    want[d:d + n] = want[s_:s_ + n]
    rt.invocate(m, 'c', [d, s_, n])
    g = [rt.invocate(m, 'g', [i])[0] for i in range(60)]
    check(g == want, (d, s_, n, g))
''')

seed('c10-label-index', 'C10',
     [(C, "        label = self.stack.label[-1 - l]\n", "        label = self.stack.label[-1 - (l & 0x7f)]\n")],
     'a branch out of more than 127 nested blocks', 'operands are cut to the height of a nearer label',
     '''
def nest(n):
    # n blocks; each adds one after its end; br_table selects how many to leave
    code = get(0) + b'\\x0e' + u(n - 1) + b''.join(u(k) for k in range(n - 1)) + u(n - 1)
    for k in range(n):
        code = i32(7) + b'\\x02\\x40' + code + b'\\x0b\\x1a' + get(1) + i32(1) + b'\\x6a' + put(1)
    return code + get(1)
for n in (3, 60, 127, 130, 200):
    rt = pywasm.core.Runtime()
    m = rt.instance(parse(module([([I32], [I32])], [(0, [I32], nest(n))], exports=[('f', 0, 0)])))
    for k in (0, 1, 2, n // 2, n - 2, n - 1, n):
        g = rt.invocate(m, 'f', [k])
        check(g == [n - min(k, n - 1)], (n, k, g))
''')

seed('c10-select-negative', 'C10',
     [(C, "                    assert a.type.data == instr.args[0][0]\n                    assert b.type.data == instr.args[0][0]\n                    d = a if c != 0 else b\n",
       "                    assert a.type.data == instr.args[0][0]\n                    assert b.type.data == instr.args[0][0]\n                    d = a if c > 0 else b\n")],
     'a select with an explicit type and a negative condition', 'the second operand is chosen',
     '''
b = module([([I32], [I64])], [(0, [], i64(11) + i64(22) + get(0) + b'\\x1c\\x01\\x7e'), (0, [], i64(11) + i64(22) + get(0) + b'\\x1b')], exports=[('t', 0, 0), ('u', 0, 1)])
rt = pywasm.core.Runtime()
m = rt.instance(parse(b))
for c in (0, 1, 2, -1, 2**31 - 1, -2**31, -256):
    for f in 'tu':
        g = rt.invocate(m, f, [c])
        check(g == [11 if c else 22], (f, c, g))
''')
