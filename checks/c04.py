from drive import Check, Unit
import c03
def check(tier):
    us = []
    for w in (32, 64, 128):
        ps = []
        for i, p in enumerate(q for q in c03.pairs(w, tier) if q[3] > -20):
            sp = p[1] < 0 or p[3] < 0
            ps += [p + (op, (i + op) % 5) for op in range(4) if sp or tier != 'quick' or (op + i) % 2]
        us.append(Unit('minmax%d' % w, 'c04.c', dict(W=w), ps, cost=w // 32, bounds='listed exponent pairs; coefficient windows against digit patterns, special operands pairwise'))
    return Check('C04', us)
