"""Writes MANIFEST.json from the engine table in harness/check.py."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
src = open(os.path.join(ROOT, 'harness', 'check.py')).read()
ns = {}
exec(src[src.index('ENGINES = {}'):src.index('def main')], ns)
NOTE = {
 'eng_numeric': ('TLA+ specification checked with TLC; exhaustive model check of the word and float algebra on small formats; trace validation of executed instructions against the specification',
   'Exact integer/IEEE-754 definitions in TLA+; exhaustive over small formats; each executed instruction of the real interpreter is a trace line TLC accepts or rejects. Inputs: edge grids and seeded random operands.'),
 'eng_exec': ('TLA+ abstract machine (TLC): model-checked on small configurations; trace validation of API histories of the real runtime against the machine',
   'Small-step TLA+ machine with structural invariants; generated programs and API histories are executed by the real code and every observable outcome is validated by TLC.'),
 'eng_codec': ('TLA+ specification of the binary format (TLC): exhaustive on small ranges; trace validation of decoder runs',
   'LEB128 and module grammar specified in TLA+; decoder runs on generated encodings judged by TLC.'),
 'eng_log': ('TLA+ specifications of machine, instructions and binary format (TLC): trace validation of runs with diagnostics switched on',
   'Programs, single instructions and binaries of all engines run by the real code at several log levels and judged by the same specifications as without.'),
 'eng_apart': ('TLA+ abstract machine and WASI specification (TLC): trace validation of interleaved histories, each runtime against its own copy of the specification',
   'The composition of independent copies of the machine: scenarios of the machine and WASI families are driven in turns in one process by the real code, and every projection is validated by TLC against the specification alone.'),
 'eng_wasi': ('TLA+ specification of the WASI system interface (TLC): exhaustive on small trees; trace validation of WASI call histories and replay of TLC-generated behaviours',
   'File tree, descriptor table and rights as a TLA+ state machine; call histories of the real implementation in scratch directories are validated by TLC, TLC behaviours are replayed.'),
 'eng_prog': ('TLA+ specification of a whole program run (TLC): trace validation of generated programs run through the library and the command line',
   'Programs (output, input, exit depth and status, embedder configuration) generated at random are run by the real code; Prog.tla determines status and streams and TLC judges each run.'),
 'eng_cli': ('TLA+ abstract machine (TLC): trace validation of command-line runs against the machine',
   'Generated modules are run by the real command line; the printed results and exit status are validated by the machine specification Wasm.tla.'),
}
checks, na = [], []
for p in props:
    e = ns['ENGINES'].get(p['id'])
    if not e:
        na.append({'property': p['id'], 'reason': 'the specification module that decides it is still being written'})
        continue
    t, n = NOTE[e]
    checks.append({'property': p['id'], 'quick_cmd': '/usr/bin/python3 harness/check.py %s --tier quick' % p['id'],
                   'thorough_cmd': '/usr/bin/python3 harness/check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t, 'level': 'model_checking', 'level_note': n})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ with TLC. The harness talks to the implementation only through its public API and real module binaries; no hooks in /repo.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), len(na))
