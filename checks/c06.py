from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]; ps = []
        es = sorted({lo, -p - 1, -p, -p + 1, -(p // 2 - 1), -2, -1, 0, 1, 2, 3, 12, 13, 19, 20, hi} | ({-15, -14, -16} if w == 128 else set()))
        for op in range(4):
            for e in es:
                sh = wins(w, -e if -p < e < 0 else None, 1 if tier == 'quick' else 2)
                n = 19 - e          # digits of 2^63 at this exponent
                if 1 <= n <= p: sh = sh + [win(P63, n, 0)]
                if w == 128 and 19 < n <= p: sh = sh + [win(q, n, (n - 19) // 3) for q in (P63, M63H, M63L)]
                if tier == 'quick' and op & 1: sh = sh[::3] + sh[-1:]
                for i, s in enumerate(sh):
                    for m in (range(5) if tier != 'quick' or (op < 2 and s in sh[-2:]) else [(i + op) % 5]): ps.append((e, s, m, op))
            ps += [(0, k, 0, op) for k in (-1, -12, -13, -4, -5)]
        us.append(Unit('round%d' % w, 'c06.c', dict(W=w), ps, cost=w // 32, bounds='exponents %s; coefficient windows, including around 2^63' % es))
    return Check('C06', us)
