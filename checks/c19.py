from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for sw in (32, 64, 128):
        for dw in (32, 64, 128):
            if sw == dw: continue
            p, lo, hi, q, dlo, dhi = PREC[sw], EMIN[sw], EMAX[sw], PREC[dw], EMIN[dw], EMAX[dw]; ps = []; k = 0
            if dw > sw:
                for e in (lo, lo + 1, -p, -1, 0, 1, p, hi - 1, hi):
                    for s in wins(sw, None, 2)[::1 if tier != 'quick' else 3] + ([full(7)] if sw == 32 else []): k += 1; ps.append((e, s, k % 5))
            else:
                es = {0, -3, lo, hi, dlo, dlo + 1, dlo - 1, dlo - q // 2, dlo - q + 1, dlo - q, dlo - q - 1, dlo - p, dlo - p - 1, dlo - p + q, dhi, dhi + 1, dhi - 1, dhi + q - 1, dhi + q, dhi + 1 - (p - q), dhi - (p - q), dhi - p, dlo - (p - q), dlo - (p - q) - 1}
                for e in sorted(e for e in es if lo <= e <= hi):
                    sh = []
                    for n in sorted({1, q - 1, q, q + 1, q + 2, (p + q) // 2, p}):
                        cuts = {n - q} | ({dlo - e} if 0 < dlo - e <= n else set())
                        for d in cuts:
                            if d <= 0: sh += [win(NINES, n, 0)]; continue
                            g = (d - 1) // 3
                            sh += [win(SEQ, n, g), win(NINES, n, g), win(ZEROS, n, g), win(FIVE, d, 0), win(FOURNINES, d, 0)] + ([win(ONEONE, n, g), win(SEQ, n, d // 3)] if tier != 'quick' or k % 3 == 0 else [])
                    for s in sorted(set(sh)):
                        k += 1
                        for m in (range(5) if tier != 'quick' else (k % 5, (k // 5) % 5) if e in (0, dlo - q // 2) else [k % 5]): ps.append((e, s, m))
            ps += [(0, s, m) for s in (-1, -4) for m in (0, 3)] + [(e, s, e % 5) for s in (-2, -3) for e in ((0, 1, 3) if sw == 32 else (0, 3, 6, 9, 12))]
            us.append(Unit('%d->%d' % (sw, dw), 'c19.c', dict(SRC=sw, W=dw), sorted(set(ps)), cost=2, bounds='listed exponents around both formats\' limits; coefficient windows at the rounding position; NaN payloads with one free base-1000 group'))
    return Check('C19', us)
