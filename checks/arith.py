"""operand pairs for + - * /: one operand a coefficient window, the other a constant pattern"""
from drive import Unit
from shapes import *
SPECIAL = [(-1, -1), (-1, 5), (5, -1), (-2, 5), (5, -12), (-3, 5), (5, -13), (-12, -13), (-1, -12), (-1, -5), (-5, -1), (-5, 5), (5, -5), (-5, -5), (-4, 5), (5, -4)]
def consts(w):
    p = PREC[w]
    return [win(NINES, p), win(ONE, p), win(ZEROS, 3, 15) if False else win(ONE, 1), win(SEQ, p), win(FIVE, p), win(SEVENS, p // 2), win(ONEONE, p - 1), win(FOURNINES, p), win(FIVE, 1)]
def xs(w, rich):
    p = PREC[w]; t = (p - 1) // 3
    r = [win(NINES, p, 0), win(ONE, p, 0), win(ZEROS, 3, 0), win(SEQ, p, t), win(SEQ, p, t // 2)]
    if w == 64: r += [win(P53, 16, 4)]
    if w == 32: r += [win(P23, 7, 1)]
    if rich > 1: r += [win(SEVENS, p // 2, 0), win(FIVE, p, t // 2), win(FOURNINES, p, t), win(ONEONE, p - 1, 1)] + [win(SEQ, p, g) for g in range(t)]
    return r
def ties(op, w, light, rich=False):
    """operands whose exact result lies on, just below or just above a rounding boundary; every mode"""
    p, lo, hi = PREC[w], EMIN[w], EMAX[w]; r = []
    if op in (0, 1):
        for d in sorted({1, 2, p // 2, p - 1, p, p + 1, p + 2}):
            for x in (win(ONE, p), win(NINES, p), win(SEQ, p)):
                r += [(d, x, 0, y) for y in ((win(FIVE, min(d, p), 0),) if d <= p or x != win(ONE, p) else (win(FIVE, p, 0), win(FOURNINES, p, 0), win(NINES, p, 0)))]
                if d == p: r += [(d, x, 0, win(FIVE, p - 1, 0)), (d, x, 0, win(FOURNINES, p, 0))]
            r += [(0, win(ZEROS, 3, 0), d, win(ONE, p)), (p + 1, win(ONE, 1), 0, win(FIVE, min(d, p), 0))]
        r += [(2 * p, win(ONE, 1), 0, win(FIVE, p, 0)), (2 * p + 1, win(ONE, 1), 0, win(FIVE, p, 0)), (p + 1, win(ONE, p, 0), 0, win(FIVE, p)), (hi, win(NINES, p), hi - p, win(FIVE, p, 0)), (hi, win(NINES, p), hi - 1, win(FIVE, 1, 0))]
    elif op == 2:
        for x in (win(SEQ, p, 0), win(NINES, p, 0), win(FOURNINES, p, 0)):
            r += [(0, x, 0, win(FIVE, 1)), (0, x, 2, win(TWO5, 2)), (3, x, -5, win(FIVE, 2)), (lo, x, -1, win(FIVE, 1)), (lo, x, -p, win(FIVE, 1)), (hi, x, 0, win(FIVE, 1)), (hi, x, -1, win(FIVE, 1))]
        for n in (1, 2, p // 2, p): r += [(lo, win(FIVE, n, 0), -n, win(ONE, 1)), (lo, win(FIVE, n, 0), 1 - n, win(ONE, 1)), (lo, win(FOURNINES, n, 0), -n, win(ONE, 1)), (lo, win(NINES, p, 0), -n, win(ONE, 1))]
    else:
        for x in (win(SEQ, p, 0), win(NINES, p, 0), win(TWO, p, 0)):
            r += [(0, x, 0, win(TWO, 1)), (1, x, 3, win(EIGHT, 1)), (0, x, -2, win(TWO5, 2)), (0, x, 0, win(THREE, 1)), (0, x, 4, win(TWO, p)), (lo, x, 0, win(TWO, 1)), (lo, x, 1, win(ONE, 1)), (lo, x, p, win(TWO, 1)), (hi, x, -1, win(TWO, 1))]
        for n in (1, 2, p // 2, p): r += [(lo, win(FIVE, n, 0), n, win(ONE, 1)), (lo, win(FIVE, n, 0), n - 1, win(ONE, 1)), (lo, win(FOURNINES, n, 0), n, win(ONE, 1))]
    more = []
    if op in (0, 1):      # digit counts and alignment
        qs = {32: (1, 4, 7), 64: (1, 8, 15, 16), 128: (1, 18, 19, 20, 33, 34)}[w]; k = 0
        for q1 in qs:
            for q2 in qs:
                for dl in sorted({-q2 + 1, 0, p - q2 - 1, p - q2, p - q2 + 1, p - 1, p, p + 1, p + 2}):
                    e1 = dl + q2 - q1
                    if e1 < 0: continue
                    for x in (ONE, NINES, SEQ):
                        for y in (FIVE, FOURNINES, NINES, FIVEONE):
                            k += 1
                            if rich or (k * 2654435761 >> 8) % (9 if w == 128 else 11 if w == 64 else 14) == op: more.append((e1, win(x, q1), 0, win(y, q2, 0), (k * 40503 >> 4) % 5, 0))
    r = [q for q in r if lo <= q[0] <= hi and lo <= q[2] <= hi]
    if light: return [q + (k % 5, (0, 0x20, 0)[k % 3]) for k, q in enumerate(r)]
    return [q + (m, 0) for q in r for m in range(5)] + more
def pairs(op, w, tier, light=False):
    """(e1, shape1, e2, shape2, mode, prior)"""
    p, lo, hi = PREC[w], EMIN[w], EMAX[w]; rich = 2 if tier != 'quick' else 1; ps = []
    X, Y = xs(w, rich), consts(w)
    if op in (0, 1): es = [(0, 0), (0, 1), (0, p // 2), (0, p - 1), (0, p), (0, p + 1), (0, 2 * p + 3), (1, 0), (p // 2, 0), (p - 1, 0), (p, 0), (p + 1, 0), (2 * p + 3, 0), (lo, lo), (lo, lo + 3), (hi, hi), (hi, hi - p), (hi - 1, hi), (hi, lo), (lo, hi)]
    elif op == 2: es = [(0, 0), (-3, 7), (lo // 2, lo - lo // 2), (lo // 2, lo // 2 - p // 2), (lo // 2, lo // 2 - p), (lo // 2, lo // 2 - 2 * p), (lo, lo), (lo, 0), (lo, -1), (lo, hi), (hi // 2, hi - hi // 2), (hi // 2, hi - hi // 2 - p), (hi // 2, hi // 2 + 3), (hi, 0), (hi, 1), (hi, hi), (hi, 1 - p), (lo + p // 2, -p)]
    else: es = [(0, 0), (-3, 7), (5, -9), (lo, 0), (lo, 1), (lo, p // 2), (lo, p), (lo + p, 2 * p), (lo, hi), (hi, 0), (hi, -1), (hi, -p), (hi, lo), (hi, p), (hi - 2, 1 - p)]
    k = 0
    for e1, e2 in es:
        if not (lo <= e1 <= hi and lo <= e2 <= hi): continue
        for i, x in enumerate(X):
            for j, y in enumerate(Y):
                k += 1
                if tier == 'quick' and (k % (5 if not light else 11)): continue
                ps.append((e1, x, e2, y, k // (5 if not light else 11) % 5, (0, 0x3d, 0x20, 0x19)[k % 4] if light else 0))
                if k % 2 and op != 3: ps[-1] = (e2, y, e1, x) + ps[-1][4:]
    ps += ties(op, w, light, rich > 1)
    for a, b in SPECIAL:
        f = lambda k: win(SEQ, p) if k == 5 else k
        for m in ((0, 3) if a == b or -5 in (a, b) else (0,)): ps.append((0, f(a), 1, f(b), m, 0x3c & (8 << k % 3) if light else 0))
    return ps
