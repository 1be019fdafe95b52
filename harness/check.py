"""Entry point of every check: check.py <property id> [--tier quick|thorough]."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw

ENGINES = {}
for p in ('C01', 'C02', 'C03', 'C04', 'C05'):
    ENGINES[p] = 'eng_numeric'
for k in range(6, 19):
    ENGINES['C%02d' % k] = 'eng_exec'
for p in ('C19', 'C20', 'C21'):
    ENGINES[p] = 'eng_codec'
ENGINES['C22'] = 'eng_log'
ENGINES['C24'] = 'eng_codec'
ENGINES['C23'] = 'eng_apart'
ENGINES['C39'] = 'eng_prog'
ENGINES['C40'] = 'eng_cli'
for k in (30, 31, 32, 33, 34, 35, 36, 37, 38, 41):
    ENGINES['C%02d' % k] = 'eng_wasi'


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = fw.Ctx(pid, tier, seed)
    try:
        eng = __import__(ENGINES[pid])
        eng.run(ctx)
    except fw.DomainError as e:
        ctx.violation('domain', str(e), str(e))
    except Exception:
        if not ctx.violations:
            traceback.print_exc()
            import shutil
            shutil.rmtree(ctx.scratch, ignore_errors=True)
            return 2
        traceback.print_exc()
    return ctx.finish()


sys.exit(main())
