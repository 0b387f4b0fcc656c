from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]
        es = sorted({lo, lo + 1, lo + 2, lo + p // 2, lo + p - 2, lo + p - 1, lo + p, -p, -1, 0, 1, hi - 1, hi})
        if tier != 'quick': es = range(lo, hi + 1) if w == 32 else sorted(set(es) | set(range(lo, lo + p + 2)) | set(range(lo, hi, 97)))
        ps = []
        for e in es:
            if w == 32: ps += [(e, full(p))]
            else: ps += [(e, s) for s in wins(w, lo + p - 1 - e + 1)]
        ps += [(e, -4) for e in (lo, lo + 1, 0, 1, hi, hi - 1)] + [(0, k) for k in (-1, -2, -3)] + [(e, -5) for e in (lo, 0, hi)]
        us.append(Unit('class%d' % w, 'c01.c', dict(W=w), ps, cost=w // 32, bounds='%s at exponents %s; every non-canonical coefficient; every NaN payload, infinity' % ('every coefficient' if w == 32 else 'coefficient windows', list(es)[:20])))
    return Check('C01', us)
