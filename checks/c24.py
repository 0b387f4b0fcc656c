from drive import Check, Unit
from shapes import *
SX = 'efga'
def cases(w, deep):
    """(style, digits, exponent, precision, dropped digits)"""
    p, lo, hi = PREC[w], EMIN[w], EMAX[w]; r = []
    nds = sorted(set([1, 2, 4, p - 1, p])) if not deep else range(1, p + 1)
    for nd in nds:
        pr = sorted(set([-1, 0, 1, nd // 2, nd - 1, nd])) if not deep else range(-1, p + 3)
        for iq, q in enumerate(pr):
            keep = lambda l: [x for i, x in enumerate(sorted(set(l))) if deep or (i + iq + nd) % 4 == 0]
            if q < -1: continue
            P = 6 if q < 0 else q
            for e in keep([lo, -nd - 2, 0, hi, 100 - nd, -99 - nd, -9 - nd, 11 - nd]):
                if lo <= e <= hi: r.append((0, nd, e, q, max(nd - P - 1, 0)))
            for e in keep([-P - nd - 1, -P - nd, -P - nd + 1, -P - 2, -P - 1, -P, -P + 1, -nd, -nd + 1, 0, 3, lo, min(hi, 350)]):
                if lo <= e <= hi: r.append((1, nd, e, q, max(-P - e, 0)))
            G = P or 1
            for X in sorted(set(keep([-6, -5, -4, -1, 0, G - 2, G - 1, G, G + 1, 98, -99]) + [-5, -4, G - 1, G])):
                e = X - nd + 1
                if lo <= e <= hi: r.append((2, nd, e, q, max(nd - G, 0)))
            A = nd if q < 0 else q or 1
            for e in keep([-(nd + 6), -(nd + 5), -(nd + 4), -nd - 1, -nd, -1, 0, 1, 9 - nd, 10 - nd, 11 - nd, 100 - nd, lo, hi, -(A + 5) - max(nd - A, 0), -(A + 6) - max(nd - A, 0), -max(nd - A, 0), 1 - max(nd - A, 0), -1 - max(nd - A, 0)]):
                if lo <= e <= hi: r.append((3, nd, e, q, max(nd - A, 0)))
    return r
def shapes_at(nd, cut, w128=False):
    r = [win(NINES, nd, 0), win(SEQ, nd, (nd - 1) // 3)]
    if 0 < cut <= nd:
        g = (cut - 1) // 3
        r += [win(FIVE, cut, 0), win(FOURNINES, cut, 0), win(NINES, nd, g), win(ONEONE, nd, g), win(EIGHT, nd, min(cut, nd - 1) // 3)]
    elif cut > nd: r += [win(ONE, nd, 0)]
    else: r += [win(ONE, nd, 0), win(SEVENS, nd, (nd - 1) // 6)]
    return sorted(set(r)) if not w128 else sorted(set([x for x in r if (x >> 4 & 15) <= 2]))
def check(tier):
    us = []; deep = tier != 'quick'
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]; ps = set(); i = 0
        for c in cases(w, deep):
            st, nd, e, q, cut = c; sh = shapes_at(nd, cut, w == 128 and not deep)
            if not deep: sh = [sh[(i * 5 + j * 3) % len(sh)] for j in range(2 if 0 < cut <= nd and i % 2 else 1)]
            for s in sh: i += 1; ps.add((0, e, s, i % 5, st, q, 32 if i % 7 == 0 else 0, 0))
        # every rounding mode on the tie
        for st in range(4):
            for nd in (3, p):
                for cut in (1, 2, nd - 1, nd):
                    q = {0: nd - cut - 1, 1: 4, 2: nd - cut, 3: nd - cut}[st]
                    if q < (1 if st > 1 else 0): continue
                    for m in range(5):
                        for s in {win(FIVE, cut, 0), win(EIGHT, nd, (cut - 1) // 3), win(NINES, nd, 0)} if cut < nd else {win(SEQ, nd, 0), win(FOURNINES, nd, 0), win(FIVE, nd, 0)}: (w == 128 and (s >> 4 & 15) > 3 and m % 2) or ps.add((0, -4 - cut, s, m, st, q, 0, 0))
        # field width and flags through the printf hook
        for i, fl in enumerate([0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 17, 24, 33, 41, 48]):
            for st in range(4):
                for j, (e, s, q) in enumerate([(-2, win(NINES, 3, 0), 1), (0, win(ZEROS, 3, 0), -1), (-p, win(SEQ, p, 0), 2), (5, win(NINES, p, 0), p), (-9, -5, -1), (7, -5, 0), (-99, -5, 3), (hi, win(ONE, p, 0), 0), (lo, win(ONE, 2), 0), (-7, win(SEVENS, 7, 1), 4), (0, -1, -1), (0, -12, 3)]):
                    if st == 1 and e > 99: continue
                    if deep or (i + j + st) % 3 == 0 or s == -5: ps.add((1, e, s, (i + j) % 5, st, q, fl, [0, 1, 7, 12, 20, 31, 40][(i * 3 + j) % 7]))
        for s in (-1, -12, -13, -4, -5):
            for st in range(4):
                for q in (-1, 0, 3): ps.add((0, {0: 0, 1: -3, 2: 4, 3: -p}[st], s, 0, st, q, 32 * (st & 1), 0)); ps.add((0, 0, s, 0, st, q, 0, 0))
        us.append(Unit('text%d' % w, 'c24.c', dict(W=w), sorted(ps), cost=w // 32, bounds='styles e f g a, %s digits, precisions up to %d digits, exponents around every change of notation; every rounding mode; all flags with widths 0 to 40' % (p, p + 2)))
    return Check('C24', us)
