"""One-off: writes ops.json (mnemonic -> opcode bytes). The table is data of the
harness from then on; it is never regenerated from the code under test."""
import sys, json
sys.path.insert(0, '/repo')
import pywasm.opcode as o
out = {}
for k, v in vars(o).items():
    if isinstance(v, int):
        n = (v.bit_length() + 7) // 8 or 1
        b = list(v.to_bytes(n, 'big'))
        nm = o.name[v]
        if k in ('select_type', 'return_call', 'else_fi', 'if_then'):
            nm = {'select_type': 'select_t', 'return_call': 'return', 'else_fi': 'else', 'if_then': 'if'}[k]
        assert nm not in out, nm
        out[nm] = b
        exp = k.replace('_', '.', 1)
        if nm != exp: print(k, nm, b)
json.dump(out, open(sys.argv[1], 'w'), indent=0, sort_keys=True)
print(len(out))
