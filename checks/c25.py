from drive import Check, Unit
from shapes import *
def check(tier):
    us = []; deep = tier != 'quick'
    for w in (32, 64, 128):
        p, lo, hi = PREC[w], EMIN[w], EMAX[w]; ps = set(); i = 0
        for st in range(4):
            for e, s in [(0, win(ZEROS, 3, 0)), (-2, win(NINES, 3, 0)), (-p, win(NINES, p, 0)), (-p - 3, win(SEQ, p, 0)), (4, win(ONEONE, p, 1)), (lo, win(ONE, 1)), (hi, win(NINES, p, 0)), (60, win(EIGHT, 3, 0)), (-99, win(TWO, 2, 0)), (0, -1), (0, -12), (-3, -5), (0, -4)]:
                if st == 1 and e > 350: e = 345 - p
                for q in (-1, 0, 3, p, 45) + ((1, p - 1, 20, 64, 99, 300) if deep else ()):
                    i += 1
                    if s < 0 and q not in (-1, 3): continue
                    if not deep and i % 2 and q != 0: continue
                    n = 12 if not deep else 24
                    ps.add((3, e, s, i % 5, st, q, 32 * (i % 3 == 0), n)); ps.add((4, e, s, i % 5, st, q, 0, 0))
        # precisions beyond every fixed buffer
        for st in range(4):
            for q in (60, 64, 65, 66, 70, 128, 255, 300, 390): ps.add((3, -2, win(SEVENS, 3, 0), 0, st, q, 0, 3)); ps.add((0, -2, win(SEVENS, 3, 0), 0, st, q, 0, 0)); ps.add((1, -3, win(NINES, 3, 0), 0, st, q, 0, 0))
        us.append(Unit('room%d' % w, 'c24.c', dict(W=w), sorted(ps), cost=w // 32, bounds='buffer sizes 0 to %d and 470 (0 with and without a buffer), precisions up to 390, styles e f g a, coefficient windows and special values' % (12 if not deep else 24)))
        # digit extraction and the textual dump into exactly as much room as they need
        xs = []
        for e in (lo, -p, 0, hi):
            for s in [win(NINES, p, 0), win(SEQ, p, 1), win(ZEROS, 3, 0), win(ONE, p, 0), -1, -12, -13, -4, -5]: xs += [(0, e, s)] + [(1, e, s)] * (s != -4)
        us.append(Unit('exact%d' % w, 'c25.c', dict(W=w), xs, cost=w // 32, bounds='buffers of exactly the documented size'))
    return Check('C25', us)
