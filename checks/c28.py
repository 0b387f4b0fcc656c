from drive import Check, Unit
from shapes import *
def check(tier):
    us = []; deep = tier != 'quick'
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]; ps = []
        es = [lo, lo + 1, lo + 7, -p, -p + 1, -9, -1, 0, 1, 10, hi - p, hi - 1, hi]
        es += {32: [-5, -37, 27], 64: [-143, -142, 113, 114, -100, 100], 128: [-2080, 2016, -999, -1000, 999, 1000, -100, 99]}[w]
        sh = wins(w, None, 2) if deep else wins(w) + [win(SEQ, p, g) for g in range(0, (p - 1) // 3, 2)] + [win(NINES, n, 0) for n in (3, 4, 9, 12, 16, 19, 33) if n < p] + [win(EIGHT, p, 0), win(NINES, p, (p - 1) // 3)]
        sh = sorted(set(sh))
        if w == 32: sh = sh + [full(7)]
        for i, e in enumerate(es):
            for j, s in enumerate(sh):
                if deep or e in (lo, 0, hi) or (i + j) % 3 == 0:
                    if (e - lo) % 2 == 0 or s != full(7) or deep: ps += [(0, e, s, (i + j) % 5), (2, e, s, 0)]
                    if w != 32 or s != full(7): ps.append((3, e, s, 0))
        for op in (0, 2, 3): ps += [(op, e, s, 0) for e in (lo, 0, hi) for s in (-4, -5, -1, -12, -13) if op != 2 or s != -4]
        ps += [(0, 0, s, 0) for s in (-2, -3) if w == 32] + [(0, 0, -1000 - win(q, p - 1, g), 0) for q in (SEQ, NINES, EIGHT) for g in range((p + 1) // 3)]
        # packing: more digits than the format has, exponents out of range
        for n in range(max(p - 3, 3), p + (5 if not deep else 12)):
            k = max(n - p, 0)
            for e in (0, lo - 1, lo - p // 2, lo - p, lo - p - 1, lo + 1, hi, hi - k, hi - k + 1, hi + 1, hi + 3, hi + p // 2):
                cut = max(k, lo - e if e < lo else 0)
                ss = [win(NINES, n, 0), win(SEQ, n, max(cut - 1, 0) // 3), win(FIVE, n, 0), win(ONE, n, (n - 1) // 3), win(ONEONE, n, 1)]
                if 0 < cut < n: ss += [win(ZEROS, n, cut // 3), win(FIVE, cut, 0), win(FOURNINES, cut, 0), win(FIVEONE, cut, 0), win(NINES, cut + 2, cut // 3)]
                for i, s in enumerate(sorted(set(ss))):
                    for m in (range(5) if deep else [(n + i + e) % 5, (n + i + e + 2) % 5]): ps.append((1, e, s, m))
        us.append(Unit('pack%d' % w, 'c28.c', dict(W=w), ps, hdr='libdecnumber/bid/decimal64.c', cost=w // 32, bounds='exponents %s; coefficient windows%s; unpacked numbers of up to %d digits with exponents %d below to %d above the range' % (es, ' and every decimal32 coefficient' if w == 32 else '', p + 4, p + 1, p // 2)))
    return Check('C28', us)
