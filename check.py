#!/usr/bin/env python3
"""check.py ID [--thorough] [-v] [--only REGEX]     run one property's check
   check.py --replay FILE                          re-run a recorded counterexample natively"""
import sys, os, json, importlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'tool'), os.path.join(V, 'checks')]
PY = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'): os.execv(PY, [PY] + sys.argv)
def main(a):
    import drive, tree
    if a and a[0] == '--replay':
        d = json.load(open(a[1])); u = drive.Unit(d['unit'], d['harness'], d['defines'], hdr=d.get('hdr'))
        b = drive.Build(tree.Tree(), u)
        bad = 0
        for san in (False, True):
            rc, out, er = drive.Native(b, san).run(d['inputs'], d['params'])
            print('--- %s build: exit %s\n%s%s' % ('sanitized' if san else 'plain', rc, out, er[-1500:])); bad |= rc != 0
        return 1 if bad else 0
    if a and a[0] == '--setup':
        drive.build_sx(); r = tree.sh([drive.SX, '--selftest']); print(r.stdout.strip()); return r.returncode
    pid = a[0]
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    only = a[a.index('--only') + 1] if '--only' in a else None
    m = importlib.import_module(pid.lower())
    chk = m.check(tier)
    return chk.run(tier, only=only, verbose='-v' in a)
if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
