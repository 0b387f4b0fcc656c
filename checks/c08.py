from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]
        es = [lo, lo + 1, -p, -1, 0, 1, 7, hi - 1, hi]
        if tier != 'quick': es = range(lo, hi + 1, 1 if w == 32 else 53)
        ps = []
        for i, e in enumerate(es):
            for s in ([full(p)] if w == 32 else wins(w)): ps.append((e, s, es[(i + len(es) // 2 * (s % 2)) % len(es)], win(SEQ, p, 0)))
        sp = (-1, -2, -3, -4, -5, win(ONE, p, 0))
        sp2 = (-1, -12, -13, -4, -5, win(ONE, p, 0))
        ps += [(0, a, b, c) for a in sp for c in sp2 for b in (0, 1) if not (a < -1 and a > -4 and b)] + [(lo, a, hi, b) for a in (-4, -5) for b in (-4, -5)]
        us.append(Unit('quantum%d' % w, 'c08.c', dict(W=w), ps, cost=w // 32, bounds='%s; pairs of exponents as listed; all special kinds pairwise' % ('every coefficient' if w == 32 else 'coefficient windows')))
    return Check('C08', us)
