from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]
        for to in range(6):
            ps = []; k = to; nm = ('int', 'unsigned', 'long', 'unsigned long', 'int128', 'unsigned int128')[to]
            es = sorted({lo, -p - 1, -p, -p + 1, -(p // 2), -2, -1, 0, 1, 2, 3, 9, 10, 19, 20, 31, 32, 38, 39, hi} | ({-14, -15, -24, -25} if w == 128 else set()))
            for e in es:
                sh = wins(w, -e if -p < e < 0 else None, 1 if tier == 'quick' else 2)
                if tier == 'quick': sh = [s for i, s in enumerate(sh) if (i + k) % 3 == 0]
                for s in sh + [win(THREE, 1), win(EIGHT, 2)][k % 2:1 + k % 2]: k += 1; ps.append((e, s, k % 5))
            pat, nd = ((P31, 10), (P32, 10), (P63, 19), (P64, 20), (P127, 39), (P128, 39))[to]
            for e in range(nd - p, 1 if w != 32 else nd - p + 4) if nd - p > 0 else range(nd - p, 6): # digits of the limit at every exponent that holds them
                n = nd - e
                if n <= p and n > 0: ps += [(e, win(pat, n, 0), m) for m in ((0, 2, 3) if e in (nd - p, 0) else (k % 5,))] + [(e, win(pat, n, max(0, (n - nd) // 3 if n > nd else 0)), (k + 1) % 5)]; k += 1
            for e in (nd - p - 1, nd - p - 2):
                if lo <= e <= hi and e <= 0 and nd - e <= 39 and False: pass
            for e in range(max(nd - p, lo), nd): 
                if nd - e <= p and nd - e > 0 and e > 0: ps.append((e, win(pat, nd - e, 0), k % 5)); k += 1
            ps += [(0, s, 0) for s in (-1, -12, -4, -5)]
            us.append(Unit('%d->%s' % (w, nm.replace(' ', '_')), 'c17.c', dict(W=w, TO=to), sorted(set(ps)), cost=w // 32, bounds='exponents %s; coefficient windows, including around the limits of the type' % es))
    return Check('C17', us)
