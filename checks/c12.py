from drive import Check, Unit
import arith
def check(tier):
    us = []
    for k in (0, 1,):
        for w in (32, 64, 128):
            us.append(Unit('%s%d' % (('add', 'sub', 'mul', 'div')[k], w), 'arith.c', dict(W=w, OPK=k, CHK=1), arith.pairs(k, w, tier), cost=w // 32, bounds='listed exponent pairs; one operand a coefficient window (one free base-1000 group, both signs), the other a digit pattern (both signs); each rounding mode'))
    return Check('C12', us)
