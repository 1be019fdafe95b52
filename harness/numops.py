"""Signatures and groups of the numeric instructions, and operand generators."""
import json, os, random, struct
from wasmenc import OPS

VEC = {'i8x16': 1, 'i16x8': 2, 'i32x4': 4, 'i64x2': 8, 'f32x4': 4, 'f64x2': 8}
TW = {'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'v128': 16}
REL = {'eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u', 'lt', 'gt', 'le', 'ge'}
LANE_T = {'i8x16': 'i32', 'i16x8': 'i32', 'i32x4': 'i32', 'i64x2': 'i64', 'f32x4': 'f32', 'f64x2': 'f64'}


def signature(mn):
    """mnemonic -> (params, result) or None when it is not a pure numeric op."""
    if '.' not in mn:
        return None
    t, op = mn.split('.', 1)
    if t in ('memory', 'table', 'local', 'global', 'ref', 'elem', 'data') or op == 'const':
        return None
    if op.startswith('load') or op.startswith('store'):
        return None
    if t in ('i32', 'i64'):
        for src in ('i32', 'i64', 'f32', 'f64'):
            if op in ('wrap_' + src, 'reinterpret_' + src) or op.startswith('extend_' + src) or (
                    op.startswith('trunc') and '_' + src + '_' in op):
                return [src], t
        if op in ('clz', 'ctz', 'popcnt', 'extend8_s', 'extend16_s', 'extend32_s'):
            return [t], t
        if op == 'eqz':
            return [t], 'i32'
        return [t, t], 'i32' if op in REL else t
    if t in ('f32', 'f64'):
        for src in ('i32', 'i64', 'f32', 'f64'):
            if op.endswith('_' + src) or op.startswith('convert_' + src):
                return [src], t
        if op in ('abs', 'neg', 'sqrt', 'ceil', 'floor', 'trunc', 'nearest'):
            return [t], t
        return [t, t], 'i32' if op in REL else t
    v = 'v128'
    if t == 'v128':
        if op == 'not':
            return [v], v
        if op == 'any_true':
            return [v], 'i32'
        if op == 'bitselect':
            return [v, v, v], v
        return [v, v], v
    if op == 'splat':
        return [LANE_T[t]], v
    if op.startswith('extract_lane'):
        return [v], LANE_T[t]
    if op == 'replace_lane':
        return [v, LANE_T[t]], v
    if op in ('all_true', 'bitmask'):
        return [v], 'i32'
    if op in ('shl', 'shr_s', 'shr_u'):
        return [v, 'i32'], v
    if op in ('abs', 'neg', 'popcnt', 'sqrt', 'ceil', 'floor', 'trunc', 'nearest') or op.startswith(
            ('extend_', 'extadd_', 'trunc_sat', 'convert_', 'demote', 'promote')):
        return [v], v
    return [v, v], v


NUMERIC = sorted(m for m in OPS if signature(m))


def lanes_of(mn):
    t, op = mn.split('.', 1)
    return 16 // VEC[t] if op.startswith(('extract_lane', 'replace_lane')) else 0


def group(mn):
    t, op = mn.split('.', 1)
    p, r = signature(mn)
    if t in ('i32', 'i64'):
        return 'C03' if p[0][0] == 'f' or op.startswith(('wrap', 'extend_')) else 'C01'
    if t in ('f32', 'f64'):
        return 'C03' if op.startswith(('convert', 'demote', 'promote', 'reinterpret')) else 'C02'
    if t in ('f32x4', 'f64x2') or 'f32x4' in op or 'f64x2' in op:
        return 'C05'
    return 'C04'


# ---------------------------------------------------------------- operands
def edge_ints(n):
    bits = 8 * n
    m = (1 << bits) - 1
    s = {0, 1, 2, 3, 5, 7, 8, 0x7f, 0x80, 0x81, 0xff, 0x100, m, m - 1, m - 2, m >> 1, (m >> 1) + 1, (m >> 1) + 2, (m >> 1) - 1}
    for k in (15, 16, 24, 31, 32, 33, 40, 48, 52, 53, 62, 63):
        if k < bits:
            s |= {1 << k, (1 << k) - 1, (1 << k) + 1, m - (1 << k) + 1, m - (1 << k)}
    s |= {0x0123456789abcdef & m, 0xfedcba9876543210 & m, 0xaaaaaaaaaaaaaaaa & m, 0x5555555555555555 & m,
          0x8000000000000001 & m}
    s |= {(m + 1 - k) & m for k in (1, 2, 3, 5, 7, 8, 10)}
    return sorted(s)


def core_ints(n):
    m = (1 << (8 * n)) - 1
    return [0, 1, 2, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) + 2]


def core_floats(n):
    eb, mb = fbits(n)
    top, one = ((1 << eb) - 1) << mb, ((1 << (eb - 1)) - 1) << mb
    pos = [0, 1, one, one + 1, top - 1, top, top | (1 << (mb - 1))]
    return pos + [x | (1 << (eb + mb)) for x in pos]


def rand_int(r, n):
    bits = 8 * n
    m = (1 << bits) - 1
    k = r.randrange(6)
    if k == 0:
        return r.getrandbits(bits)
    if k == 1:
        return r.getrandbits(r.randint(1, bits))
    if k == 2:
        return (-r.getrandbits(r.randint(1, bits))) & m
    if k == 3:                                  # few bits set
        x = 0
        for _ in range(r.randint(1, 3)):
            x |= 1 << r.randrange(bits)
        return x
    if k == 4:                                  # run of ones
        a, b = sorted((r.randrange(bits), r.randrange(bits)))
        return ((1 << (b + 1)) - (1 << a)) & m
    return r.choice(edge_ints(n))


def fbits(n):
    return (8, 23) if n == 4 else (11, 52)


def edge_floats(n):
    eb, mb = fbits(n)
    bias = (1 << (eb - 1)) - 1
    top = (1 << eb) - 1

    def mk(e, m, s=0):
        return (s << (eb + mb)) | (e << mb) | m
    full = (1 << mb) - 1
    q = 1 << (mb - 1)
    pos = [mk(0, 0), mk(0, 1), mk(0, 2), mk(0, q), mk(0, full), mk(1, 0), mk(1, 1), mk(1, full), mk(2, 0),
           mk(bias, 0), mk(bias, 1), mk(bias - 1, 0), mk(bias - 1, 1), mk(bias - 1, full), mk(bias - 2, 0), mk(bias - 2, full),
           mk(bias, q), mk(bias, q | 1), mk(bias + 1, 0), mk(bias + 1, q >> 1), mk(bias + 1, q), mk(bias + 2, 0),
           mk(bias + mb, 0), mk(bias + mb, 1), mk(bias + mb - 1, 1), mk(bias + mb - 1, full), mk(bias + mb + 1, 1),
           mk(top - 1, full), mk(top - 1, full - 1), mk(top - 1, 0), mk(bias + 5, 0x12345), mk(bias - 7, 0x54321),
           mk(top, 0), mk(top, q), mk(top, 1), mk(top, q | 1), mk(top, full), mk(top, q >> 1)]
    return sorted(set(pos + [x | (1 << (eb + mb)) for x in pos]))


def rand_float(r, n):
    eb, mb = fbits(n)
    k = r.randrange(8)
    if k == 0:
        return r.getrandbits(8 * n)
    if k == 1:
        return r.choice(edge_floats(n))
    bias = (1 << (eb - 1)) - 1
    s = r.randrange(2) << (eb + mb)
    m = rand_int(r, n) & ((1 << mb) - 1)
    if k in (2, 3):
        e = bias + r.randint(-3, mb + 3)
    elif k == 4:
        e = r.choice([0, 0, 1, 2, (1 << eb) - 1, (1 << eb) - 2, (1 << eb) - 3])
    elif k == 5:
        e = r.randrange(1 << eb)
    elif k == 6:
        e = bias + r.randint(-2, 2)
    else:
        e = r.choice([bias // 2, bias // 2 + 1, bias + bias // 2, bias + bias // 2 + 1, r.randint(0, mb + 2)])
    return s | (e << mb) | m


def edge_f2i(n, src):
    """Floats around the limits of n-byte integers, as bit patterns."""
    fb = 4 if src == 'f32' else 8
    out = set(edge_floats(fb))
    pack, up = ('<f', '<I') if fb == 4 else ('<d', '<Q')
    for b in (0.0, 1.0, 2.0 ** 31, 2.0 ** 32, 2.0 ** 63, 2.0 ** 64, 2.0 ** 24, 2.0 ** 53, 0.5, 1.5, 127.0, 255.0, 32768.0,
              65536.0, 2147483647.0, 4294967295.0, 2147483648.9, 2147483647.5, 4294967295.5, 4294967295.9):
        x = struct.unpack(up, struct.pack(pack, b))[0]
        for d in (-2, -1, 0, 1, 2):
            if x + d >= 0:
                out.add(x + d)
                out.add((x + d) | (1 << (8 * fb - 1)))
    return sorted(out)


def edge_i2f(n, dst):
    mb = 23 if dst in ('f32', 'f32x4') else 52
    out = set(edge_ints(n))
    bits = 8 * n
    m = (1 << bits) - 1
    for k in range(mb, bits):
        ulp = 1 << (k - mb)
        for base in ((1 << k), (1 << k) + ulp, (2 << k) - ulp):
            for d in (ulp >> 1, (ulp >> 1) + 1, (ulp >> 1) - 1, (ulp >> 1) + (ulp >> 2), 1):
                x = (base + d)
                out.add(x & m)
                out.add((-x) & m)
    if mb == 23 and n == 8:                     # double-rounding traps: halfway to f32 but sticky below f64
        for k in range(54, 64):
            for odd in (0, 1):
                x = (1 << k) + (odd << (k - 23)) + (1 << (k - 24)) + 1
                y = (1 << k) + (odd << (k - 23)) + (1 << (k - 24)) - 1
                for z in (x, y):
                    out.add(z & m)
                    out.add((-z) & m)
    return sorted(out)


def b(x, n):
    return list((x & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))


def vec(r, w, isf):
    out = []
    mode = r.randrange(4)
    if mode == 0:
        return [r.randrange(256) for _ in range(16)]
    for _ in range(16 // w):
        out += b(rand_float(r, w) if isf else (r.choice(edge_ints(w)) if mode == 1 else rand_int(r, w)), w)
    return out


def lane_width(mn, k):
    """Width and floatness of the lanes of vector operand k."""
    t, op = mn.split('.', 1)
    if t == 'v128':
        return 8, False
    for s in VEC:
        if s in op:
            return VEC[s], s[0] == 'f'
    return VEC[t], t[0] == 'f'


def pack_lanes(vals, w):
    """Pack lane values into 16-byte vectors, padding by cycling."""
    per = 16 // w
    out = []
    for i in range(0, len(vals), per):
        ch = vals[i:i + per]
        while len(ch) < per:
            ch = ch + [vals[(i + len(ch)) % len(vals)]]
        out.append([x for v in ch for x in b(v, w)])
    return out


def cases(mn, r, budget):
    """Operand tuples (lists of byte lists) and immediates for one mnemonic."""
    t, op = mn.split('.', 1)
    p, res = signature(mn)
    out = []

    def scalar_edges(vt):
        n = TW[vt]
        if vt[0] == 'i':
            return edge_i2f(n, t) if t[0] == 'f' and op.startswith('convert') else edge_ints(n)
        return edge_f2i(TW[res], vt) if t[0] == 'i' else edge_floats(n)

    def scalar_rand(vt):
        return rand_int(r, TW[vt]) if vt[0] == 'i' else rand_float(r, TW[vt])

    if 'v128' not in p and res != 'v128':
        n = [TW[x] for x in p]
        if len(p) == 1:
            e = scalar_edges(p[0])
            out = [([b(x, n[0])], []) for x in e]
            out += [([b(scalar_rand(p[0]), n[0])], []) for _ in range(max(budget - len(e), budget // 2))]
            return out
        if op in ('shl', 'shr_s', 'shr_u', 'rotl', 'rotr'):
            ks = list(range(0, 2 * 8 * n[0] + 2)) + [0x80000000, 0xffffffff, 0xffffffe0, 0x100, 0x101, (1 << (8 * n[0])) - 1]
            if n[0] == 8:
                ks += [1 << 32, (1 << 32) + 1, 1 << 63, (1 << 63) + 63]
            pairs = [(rand_int(r, n[0]), k) for k in ks]
            pairs += [(1 << (8 * n[0] - 1), k) for k in r.sample(ks, 16)] + [((1 << (8 * n[0])) - 1, k) for k in r.sample(ks, 16)]
        else:
            e = scalar_edges(p[0])
            pairs = [(x, y) for x in e for y in e]
            want = budget * 2 // 3
            keep = []
            # always keep the signed-overflow, equal-operand and zero pairs
            for x, y in pairs:
                if x == y or y in (0, (1 << (8 * n[0])) - 1) or x in (0, 1 << (8 * n[0] - 1)):
                    keep.append((x, y))
            if len(keep) > want // 2:
                keep = r.sample(keep, want // 2)
            pairs = keep + r.sample(pairs, min(len(pairs), want - len(keep)))
            core = core_floats(n[0]) if p[0][0] == 'f' else core_ints(n[0])
            pairs += [(x, y) for x in core for y in core]
            if op[:3] in ('div', 'rem'):        # dividends next to a multiple of the divisor
                mask = (1 << (8 * n[0])) - 1
                if p[0][0] == 'i':
                    for _ in range(max(120, budget // 4)):
                        q, d = r.choice(e) if r.randrange(2) else rand_int(r, n[0]), r.choice([1, 2, 3, 5, 7, 10]) if r.randrange(2) else rand_int(r, n[0])
                        if r.randrange(2):
                            d >>= r.randrange(8 * n[0])
                        d = (-d if r.randrange(3) == 0 else d) & mask
                        pairs.append(((q * d + r.choice([-1, 0, 1])) & mask, d))
                    pairs += [(x, y & mask) for k in (52, 53) if 8 * n[0] == 64 for x0 in (1 << k, (1 << k) + 3, (2 << k) - 1, (2 << k) - 3)
                              for x in (x0, -x0 & mask) for y in (1, -1, 2, 3, -3)]
            if n[0] == 8 and t == 'i64':        # the one pair that overflows signed division
                pairs += [(1 << 63, (1 << 64) - 1)]
            if t == 'i32':
                pairs += [(1 << 31, (1 << 32) - 1)]
        while len(pairs) < budget:
            x = scalar_rand(p[0])
            k = r.randrange(5)
            if k == 0:
                y = x
            elif k == 1:
                y = (x + r.randint(-2, 2)) & ((1 << (8 * n[1])) - 1)
            elif k == 2 and t[0] == 'f':        # neighbouring exponents: cancellation and ties
                eb, mb = fbits(n[1])
                e = (x >> mb) & ((1 << eb) - 1)
                e = max(0, min((1 << eb) - 1, e + r.randint(-mb - 2, mb + 2)))
                y = (r.randrange(2) << (eb + mb)) | (e << mb) | (rand_int(r, n[1]) & ((1 << mb) - 1))
            else:
                y = scalar_rand(p[1])
            pairs.append((x, y))
        return [([b(x, n[0]), b(y, n[1])], []) for x, y in pairs]

    # vector instructions
    nl = lanes_of(mn)
    w, isf = lane_width(mn, 0)

    def scal(vt):
        return b(rand_int(r, TW[vt]) if vt[0] == 'i' else rand_float(r, TW[vt]), TW[vt])

    def imm():
        if op == 'shuffle':
            return [r.randrange(32) for _ in range(16)]
        return [r.randrange(nl)] if nl else []

    if nl:
        for l in range(nl):
            for _ in range(max(2, budget // (2 * nl))):
                out.append(([vec(r, w, isf) if x == 'v128' else scal(x) for x in p], [l]))
        return out
    e = edge_floats(w) if isf else edge_ints(w)
    if p == ['v128'] and op not in ('all_true', 'bitmask', 'any_true'):
        if op.startswith('trunc_sat'):
            e = edge_f2i(4, 'f32' if w == 4 else 'f64')
        if op.startswith('convert'):
            e = edge_i2f(w, t)
        if w == 1:
            e = list(range(256))
        ee = e[:]
        r.shuffle(ee)
        out = [([v], []) for v in pack_lanes(ee, w)[:budget // 2 + 1]]
        if w == 8 and res == 'v128':            # make sure each edge value visits each lane
            out += [([v[8:] + v[:8]], []) for (v,), _ in out[:budget // 4]]
    elif p == ['v128', 'v128'] and op not in ('shuffle', 'swizzle') and t != 'v128':
        if w == 1:
            pairs = [(x, y) for x in (0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x40, 0xc0, 0x55)
                     for y in (0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x40, 0xc0, 0x55)]
        else:
            pairs = [(x, y) for x in e for y in e]
        per = 16 // w
        want = min(len(pairs), per * (budget // 2))
        pairs = r.sample(pairs, want)
        core = core_floats(w) if isf else core_ints(w)     # every pair of the values instructions treat specially
        pairs = [(x, y) for x in core for y in core] + [(x, x) for x in r.sample(e, min(len(e), 16))] + pairs
        r.shuffle(pairs)
        xs, ys = pack_lanes([x for x, _ in pairs], w), pack_lanes([y for _, y in pairs], w)
        out = [([x, y], []) for x, y in zip(xs, ys)]
        out += [([b(x, w) * per, b(y, w) * per], []) for x in core for y in core]       # all lanes alike: pairwise sums at their extremes
    elif op in ('shl', 'shr_s', 'shr_u'):
        ks = list(range(0, 16 * w + 3)) + [255, 256, 257, 0x80000000, 0xffffffff]
        out = [([vec(r, w, isf), b(k, 4)], []) for k in (ks if len(ks) <= budget else r.sample(ks, budget))]
    elif op == 'swizzle':
        for _ in range(budget // 2):
            out.append(([[r.randrange(256) for _ in range(16)], [r.choice([r.randrange(16), r.randrange(16), r.randrange(256), 15, 16, 255])
                                                                for _ in range(16)]], []))
    elif op == 'shuffle':
        out.append(([list(range(16)), list(range(16, 32))], list(range(16))))
        out.append(([list(range(16)), list(range(16, 32))], list(range(31, 15, -1))))
    elif op in ('all_true', 'bitmask', 'any_true'):
        out.append(([[0] * 16], []))
        out.append(([[255] * 16], []))
        for i in range(16):
            out.append(([[0] * i + [r.choice([1, 128, 64])] + [0] * (15 - i)], []))
            z = [r.randrange(1, 256) for _ in range(16)]
            k = i // w * w
            z[k:k + w] = [0] * w
            out.append(([z], []))
    while len(out) < budget:
        a = [vec(r, w, isf) if x == 'v128' else scal(x) for x in p]
        if len(p) > 1 and p[1] == 'v128' and r.random() < 0.3:      # share some lanes
            k = r.randrange(16 // w)
            a[1] = a[1][:k * w] + a[0][k * w:(k + 1) * w] + a[1][(k + 1) * w:]
        out.append((a, imm()))
    return out
