#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough] [--only substr ...] [-v]
   check.py --replay FILE         re-run one recorded counterexample on the real build"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def prop(p):
    import importlib
    return importlib.import_module('irsym.props.' + p.lower())


def main():
    a = sys.argv[1:]
    if a[0] == '--replay-inner':
        d = json.load(open(a[1]))
        bad, text = prop(d['property']).replay(d['scenario'])
        print(text)
        sys.stdout.flush()
        os._exit(10 if bad else 0)
    if a[0] == '--replay':
        from irsym import runner
        import tempfile, shutil
        d = json.load(open(a[1]))
        t = tempfile.mkdtemp()
        try:
            bad, text = runner.Native(t).replay(d['property'], d['scenario'])
        finally:
            shutil.rmtree(t)
        print('REPRODUCED' if bad else 'not reproduced', text)
        sys.exit(1 if bad else 0)
    from irsym import runner
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    v = False
    budget = None
    p = a[0]
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]; i += 2
        elif a[i] == '--budget':
            budget = float(a[i + 1]); i += 2
        elif a[i] == '-v':
            v = True; i += 1
        elif a[i] == '--only':
            only = a[i + 1:]; break
        else:
            raise SystemExit('bad argument ' + a[i])
    sys.exit(runner.main(p, prop(p), tier, only, v, budget))


main()
