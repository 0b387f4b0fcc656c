from drive import Check, Unit
from shapes import *
OPS = {'ceil': 2, 'floor': 3, 'trunc': 1, 'round': 4, 'roundeven': 0, 'rint': -1, 'nearbyint': -1}
ES = {32: [-101, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 90], 64: [-398, -17, -16, -15, -9, -3, -2, -1, 0, 5, 369], 128: [-6176, -35, -34, -33, -17, -16, -3, -1, 0, 3, 6111]}
def check(tier):
    us = []
    for op, k in OPS.items():
        for w in (32, 64, 128):
            ps = []
            modes = range(5) if k < 0 else [0, 3]
            for e in ES[w]:
                fullrange = w == 32 and (tier != 'quick' or op in ('ceil', 'round') or e in (-7, 0))
                shapes = [full(7)] if fullrange else wins(w, -e, 1 if tier == 'quick' else 2)
                if k < 0 and tier == 'quick': ps += [(e, m, s) for m in modes for s in (shapes if op == 'rint' or e in (-1, -3, -7) else shapes[:3])]
                elif tier == 'quick' and not fullrange: ps += [(e, modes[i & 1], s) for i, s in enumerate(shapes)]
                else: ps += [(e, m, s) for m in modes for s in shapes]
            ps += [(0, 1, k) for k in (-1, -2 if w == 32 else -12, -3 if w == 32 else -13)]
            us.append(Unit('%s%d' % (op, w), 'c05.c', dict(OP=op, KIND=k, W=w), ps, cost=2 if w == 32 else 1,
                           bounds='exponents %s; %s' % (ES[w], 'every 7-digit coefficient (ceil, round; others in windows), every mode' if w == 32 else 'coefficient windows: constant digits but one free base-1000 group')))
    return Check('C05', us)
