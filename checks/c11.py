from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]
        es = sorted({lo, lo + p - 1, -p - 1, -p, -p + 1, -p // 2, -4, -3, -2, -1, 0, 1, p, hi})
        ps = [(e, s) for e in es for s in ([full(p)] if w == 32 and (e not in (-1, -2) or tier != 'quick') else wins(w, -e if -p < e < 0 else None, 1 if tier == 'quick' else 2))]
        ps += [(0, k) for k in (-1, -2, -3)] + [(e, k) for k in ((-5,) if w == 128 else (-4, -5)) for e in (lo, -1, 0, 1, hi)]
        us.append(Unit('parts%d' % w, 'c11.c', dict(W=w), ps, cost=w // 32, bounds='exponents %s; %s' % (es, 'every coefficient' if w == 32 else 'coefficient windows')))
    return Check('C11', us)
