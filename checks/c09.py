from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]; ps = []; k = 0
        es = [lo, lo + 1, lo + p // 2, lo + p, -p, -1, 0, 1, p, hi - 1, hi]
        sh = wins(w, None, 1 if tier == 'quick' else 2) + [win(ONE, n, 0) for n in (1, 3, 4, p - 1)] + [win(NINES, p - 1, 0), win(NINES, 4, 1)]
        for op, yk in [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 6), (3, 0), (3, 1), (3, 4), (3, 2), (3, 6)]:
            for e in es:
                for i, s in enumerate(sh):
                    k += 1
                    if tier == 'quick' and op > 1 and k % 3: continue
                    ps.append((e, s, op, yk, k % 5))
            ps += [(0, s, op, yk, m) for s in (-1, -5, -12, -13, -4) for m in (0, 3)]
        ps += [(0, s, op, 5, 0) for s in (-1, -5, -12, win(SEQ, p, 1)) for op in (2, 3)]
        us.append(Unit('next%d' % w, 'c09.c', dict(W=w), ps, cost=w // 32, bounds='exponents %s; coefficient windows; directions +-inf, +-values, equal, NaN' % es))
    return Check('C09', us)
