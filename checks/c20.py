from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]; ps = []
        a = [(-p + 1, win(SEQ, p, 0)), (-2, win(NINES, 3, 0)), (hi, win(NINES, p, 0)), (lo, win(ZEROS, 3, 0)), (0, -1), (0, -12), (0, -13), (0, -5)]
        b = [(-1, win(ONE, 3)), (0, win(SEVENS, p)), (-p, win(ONEONE, p)), (0, -5), (0, -1), (0, -12)]
        two = (1, 2, 3, 4, 5, 8, 9, 17, 18, 20, 26, 36)
        for op in range(1, 38):
            if op in (18, 19): aa, bb = [(0, win(SEQ, 4, 0)), (1, win(ONE, 2, 0)), (0, -1), (0, -12), (0, -5)], [(0, win(SEVENS, 1)), (-1, win(THREE, 2)), (0, -5), (0, -1), (0, -12)]
            elif op in (21, 22): aa, bb = [(0, -1), (0, -12), (0, -5), (0, win(ONE, 1))], b[:1]
            elif op in (34, 35): aa, bb = a[:1], b[:1]
            else: aa, bb = a, b if op in two else b[1:2]
            for i, x in enumerate(aa):
                for j, y in enumerate(bb):
                    if tier == 'quick' and len(bb) > 1 and (i + j) % 2: continue
                    ps.append((op,) + x + y)
        if w == 32: ps.append((0, 4 if tier == 'quick' else 6))
        us.append(Unit('mode%d' % w, 'c20.c', dict(W=w), ps, cost=w // 32, bounds='any int argument in histories of %d calls; for each operation every prior mode, operand windows' % (4 if tier == 'quick' else 6)))
    return Check('C20', us)
