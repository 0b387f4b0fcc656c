from drive import Check, Unit
from shapes import *
import arith
def pairs(w, tier):
    p, lo, hi = PREC[w], EMIN[w], EMAX[w]; ps = []; k = 0
    X, Y = arith.xs(w, 1 if tier == 'quick' else 2), arith.consts(w)
    es = [(0, 0), (0, 1), (1, 0), (0, p // 2), (p // 2, 0), (0, p - 1), (p - 1, 0), (0, p), (p, 0), (0, p + 3), (2 * p, 0), (lo, lo), (lo, hi), (hi, lo), (hi, hi), (hi - 1, hi), (-5, -4)]
    for e, f in es:
        for x in X:
            for y in Y:
                k += 1
                if tier == 'quick' and k % 3: continue
                ps.append((e, x, f, y) if k & 2 else (f, y, e, x))
    for e, n, g in [(0, 3, 0), (5, p - 2, 0), (lo + p, p // 2, 0), (hi, 2, 0), (0, p - 1, (p - 2) // 3)]:
        for pat in (ZEROS, SEQ, NINES):
            for j in sorted({0, 1, 2, p - n}): ps.append((e, win(pat, n, g), e, -20 - j))
    S = win(SEQ, p, 0); F = win(SEQ, p)
    ps += [(0, a, 3, b) for a, b in arith.SPECIAL if a != 5 and b != 5] + [(0, a, 3, F) for a in (-1, -2 if w == 32 else -12, -3 if w == 32 else -13, -5, -4)] + [(0, F, 3, a) for a in (-1, -12, -13, -5, -4)]
    return ps
def check(tier):
    return Check('C03', [Unit('cmp%d' % w, 'c03.c', dict(W=w), pairs(w, tier), cost=w // 32, bounds='listed exponent pairs; coefficient windows against digit patterns, cohort members, special operands pairwise') for w in (32, 64, 128)])
