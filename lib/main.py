"""bin/check <property> [--tier quick|thorough] [--seed N]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ctx as C, build, checks

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = None
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--seed': seed = int(a.pop(0))
        else: pid = x
    if pid not in checks.CHECKS: print('unknown property', pid); return 2
    c = C.Ctx(pid, tier, seed)
    try:
        checks.CHECKS[pid](c)
    except (C.Fail, build.BuildError, RuntimeError) as e:
        if c.viol: return c.finish()
        print('ERROR: %s' % e); return 2
    except Exception:
        traceback.print_exc()
        if c.viol: return c.finish()
        return 2
    rc = c.finish()
    print('%s %s: %d executions, %d traces validated, %d states, %.1f s' % (pid, 'VIOLATED' if rc else 'ok', c.execs, c.traces, c.states, __import__('time').time() - c.t0))
    return rc
sys.exit(main())
