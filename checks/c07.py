from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]; ps = []; k = 0
        es = [(0, d) for d in (0, 1, 2, p // 2, p - 1, p, p + 1, 2 * p, hi, -1, -2, -p // 2, -p + 1, -p, -p - 1, lo)] + [(lo, lo), (lo, lo + 1), (lo, 0), (lo, hi), (hi, hi), (hi, hi - 1), (hi - 3, hi), (hi, lo), (lo + p, lo)]
        for e, f in es:
            d = f - e
            sh = [full(7)] if w == 32 and d in (2,) else wins(w, d if 0 < d < p else None, 1 if tier == 'quick' else 2)
            sh = sh + ([win(ZEROS, p + d, 0), win(NINES, p + d, 0), win(ONE, p + d + 1, 0)] if -p < d < 0 else [])
            for i, s in enumerate(sh):
                k += 1
                for m in (range(5) if tier != 'quick' or 0 < d <= p else [k % 5]): ps.append((e, s, f, [win(ONE, 1), win(SEQ, p), -5, -4][k % 4], m))
        S = win(SEQ, p)
        ps += [(0, a, 1, b, 0) for a, b in ((-1, -1), (-1, S), (S, -1), (-12, S), (S, -12), (-13, S), (S, -13), (-12, -1), (-1, -12), (-5, 5 and S), (-4, S), (-12, -13))]
        us.append(Unit('quantize%d' % w, 'c07.c', dict(W=w), ps, cost=w // 32, bounds='exponent pairs %s; coefficient windows' % es))
    return Check('C07', us)
