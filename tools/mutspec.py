"""Do the laws of WasiMC.tla bite?  Each mutation of Wasi.tla must break one."""
import os, shutil, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import fw, tlc, wasimc

MUT = [
    ('C34', 'move == Put(Cut(S, a.d, a.nm), b.d, b.nm, a.n)', 'move == Put(S, b.d, b.nm, a.n)'),
    ('C34', 'ELSE IF dir /\\ Under(S, a.n, b.d) THEN {INVAL, NOTEMPTY, NOTDIR, EXIST}', 'ELSE IF FALSE THEN {}'),
    ('C34', 'Amb(w, S, Ok([Cut(S, w.d, w.nm) EXCEPT !.n[w.n].gone = TRUE]))', 'Amb(w, S, Ok([S EXCEPT !.n[w.n].gone = TRUE]))'),
    ('C34', '    THEN (IF ~creat THEN no({NOENT})\n           ELSE IF S.n[w.d].gone THEN no({NOENT})', '    THEN (IF ~creat THEN no({NOENT})'),
    ('C34', 'IF S.n[w.n].k = "d" THEN Amb(w, S, Er(S, {ISDIR, PERM}))', 'IF FALSE THEN Ok(S)'),
    ('C30', 'IF Len(st) = 1 THEN Stuck(ESC) ELSE Walk(S, SubSeq(st, 1, Len(st) - 1)', 'IF Len(st) = 1 THEN Walk(S, <<1>>, rest, follow, h, lk) ELSE Walk(S, SubSeq(st, 1, Len(st) - 1)'),
    ('C31', 'b0 == c.rb \\cap D.i', 'b0 == c.rb'),
    ('C31', 'i0 == c.ri \\cap D.i', 'i0 == c.ri'),
    ('C31', 'FdErr(S, f, r) == IF ~Open(S, f) THEN {BADF} ELSE IF r \\subseteq S.fd[f].b THEN {} ELSE {NOTCAPABLE}', 'FdErr(S, f, r) == IF ~Open(S, f) THEN {BADF} ELSE {}'),
    ('C31', 'ELSE IF ~(c.rb \\subseteq S.fd[c.fd].b /\\ c.ri \\subseteq S.fd[c.fd].i) THEN Er(S, {NOTCAPABLE})', 'ELSE IF FALSE THEN Ok(S)'),
    ('C32', 'Ok([S EXCEPT !.fd = Without([@ EXCEPT ![c.to] = S.fd[c.fd]], c.fd)', 'Ok([S EXCEPT !.fd = [@ EXCEPT ![c.to] = S.fd[c.fd]]'),
    ('C32', 'ELSE Ok([S EXCEPT !.fd = Without(@, c.fd), !.rd = Without(@, c.fd)])', 'ELSE Ok(S)'),
    ('C33', 'pos == IF 0 \\in S.fd[f].fl THEN Len(Data(S, f)) ELSE S.fd[f].o', 'pos == S.fd[f].o'),
    ('C33', 'SubSeq(z, 1, pos) \\o d \\o SubSeq(z, pos + Len(d) + 1, Len(z))', 'SubSeq(z, 1, pos) \\o d'),
    ('C33', 'z == IF pos > Len(old) THEN old \\o Zeros(pos - Len(old)) ELSE old', 'z == old'),
    ('C33', '!.fd[f].o = pos + k]', '!.fd[f].o = @ + k]'),
]
real = tlc.SPEC
text = open(real + '/Wasi.tla').read()
fails = 0
for pid, a, b in MUT:
    assert text.count(a) == 1, (pid, a, text.count(a))
    d = tempfile.mkdtemp()
    shutil.copytree(real, d + '/spec')
    open(d + '/spec/Wasi.tla', 'w').write(text.replace(a, b))
    tlc.SPEC = d + '/spec'
    ctx = fw.Ctx(pid, 'quick', 1)
    try:
        ss = [f(t if t < 5 else 4) for f, q, t in wasimc.SYSTEMS[pid]]
        r = ctx.tlc('WasiMC', env={'TRACE': ctx.ndjson([s.scenario() for s in ss], 'x.ndjson')}, must=False)
        hit = not r.ok
        law = [l for l in r.out.splitlines() if 'bad = "' in l and 'bad = ""' not in l][-1:] or [l for l in r.out.splitlines() if 'rror' in l][:1]
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        shutil.rmtree(d)
    fails += not hit
    print('broken' if hit else 'MISSED', pid, b[:70].replace('\n', ' '), law, flush=True)
print('missed', fails)
