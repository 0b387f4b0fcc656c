from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]
        ps = []
        for op in (0, 1, 2):
            pairs = [(0, 1), (0, -1), (0, hi), (0, hi + 1), (0, hi + 3), (0, hi + p - 1), (0, hi + p), (0, hi + p + 40), (0, lo), (0, lo - 1), (0, lo - 2), (0, lo - 3), (0, lo - p // 2), (0, lo - p + 1), (0, lo - p), (0, lo - p - 9), (lo, hi - lo), (hi, lo - hi), (lo, -1), (hi, 1), (-5, 12), (3, 0), (0, 2147483647), (0, -2147483647 - 1), (hi, 2147483647), (lo, -2147483647 - 1)]
            if op == 1: pairs += [(0, 1 << 40), (0, -(1 << 40)), (0, (1 << 32) + 1), (0, -(1 << 32) - 1)]
            for e, n in pairs:
                cut = lo - e - n
                sh = [full(p)] if w == 32 and (op == 0 or tier != 'quick') and abs(n) < 1000 and (e, n) not in ((0, hi + 1), (hi, 1)) else wins(w, cut if 0 < cut < p else None)
                ps += [(e, s, n, op) for s in sh]
            ps += [(0, k, n, op) for k in (-1, -2, -3, -4, -5) for n in (1, -1, 0, 2147483647, -2147483647)]
        us.append(Unit('scale%d' % w, 'c10.c', dict(W=w), ps, cost=w // 32, bounds='scalbn/scalbln/ldexp over listed exponent/power pairs; %s' % ('every coefficient for scalbn' if w == 32 else 'coefficient windows')))
    return Check('C10', us)
