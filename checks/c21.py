from drive import Check, Unit
import arith
def check(tier):
    us = []
    for k in range(4):
        for w in (32, 64, 128):
            us.append(Unit('fl_%s%d' % (('add', 'sub', 'mul', 'div')[k], w), 'arith.c', dict(W=w, OPK=k, CHK=2), arith.pairs(k, w, tier, True), cost=w // 32, bounds='as the value checks; varying prior flags'))
    return Check('C21', us)
