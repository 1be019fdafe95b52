"""Shared by the drivers that run the real code."""
import os, signal, sys
sys.dont_write_bytecode = True
REPO = os.environ.get('PYWASM_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if os.environ.get('PYWASM_LOG'):                # with diagnostics on, written where nobody looks
    import io
    import pywasm.log

    class Away(io.RawIOBase):
        def writable(self):
            return True

        def write(self, b):
            return len(b)
    pywasm.log.lvl = int(os.environ['PYWASM_LOG'])
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(Away()), encoding='utf-8')
TW = {'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'v128': 16}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def guard(seconds, f, *a):
    """Run f; a call that does not finish in time raises Hang."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def to_api(t, v):
    if t in ('i32', 'i64'):
        return int.from_bytes(bytes(v), 'little', signed=True)
    if t == 'v128':
        return bytearray(v)
    raise ValueError(t)


def from_api(t, x):
    """Bytes of a value the API returned, or a tagged description of a bad one."""
    if t in ('i32', 'i64'):
        n = TW[t]
        if type(x) is not int or not -(1 << (8 * n - 1)) <= x < (1 << (8 * n - 1)):
            return None
        return list((x & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
    if t == 'v128':
        if not isinstance(x, (bytes, bytearray)) or len(x) != 16:
            return None
        return list(x)
    raise ValueError(t)


def invoke(rt, mi, name, args, rts):
    try:
        r = rt.invocate(mi, name, args)
    except Hang:
        raise
    except Exception as e:
        return {'k': 'trap', 'e': repr(e)[:60]}
    if not isinstance(r, list) or len(r) != len(rts):
        return {'k': 'bad-shape', 'e': repr(r)[:60]}
    v = [from_api(t, x) for t, x in zip(rts, r)]
    if any(x is None for x in v):
        return {'k': 'bad-value', 'e': repr(r)[:60]}
    return {'k': 'val', 'v': v}
