from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]
        es = [lo, lo + 1, -p, -1, 0, 1, hi - 1, hi]
        if tier != 'quick': es = range(lo, hi + 1, 1 if w == 32 else 53)
        ps = [(e, s, 257) for e in es for s in ([full(p)] if w == 32 else wins(w, None, 1 if tier == 'quick' else 2))]
        ps += [(0, win(SEQ, p, 0), k) for k in (-1, -12, -13, -5)] + [(e, k, 257) for e in (lo, 0, 1, hi) for k in (-4, -5)] + [(0, k, k2) for k in (-1, -2, -3) for k2 in (257, -12)]
        us.append(Unit('sign%d' % w, 'c02.c', dict(W=w), ps, cost=w // 32, bounds='%s; both signs of both operands; every NaN payload, infinity, non-canonical coefficient' % ('every coefficient at the listed exponents' if w == 32 else 'coefficient windows')))
    return Check('C02', us)
