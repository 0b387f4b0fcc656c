from drive import Check, Unit
from shapes import *
def check(tier):
    us = []
    for w in (32, 64, 128):
        p = PREC[w]
        for to in range(6):
            ps = []; k = to; nm = ('int', 'unsigned', 'long', 'unsigned_long', 'int128', 'unsigned_int128')[to]
            pat, nd = ((P31, 10), (P32, 10), (P63, 19), (P64, 20), (P127, 39), (P128, 39))[to]
            for n in range(1, nd + 1):
                sh = [win(NINES, n, 0), win(SEQ, n, 0), win(ONE, n, 0)]
                if n > p:   # ties at the format's precision
                    d = n - p; g = (d - 1) // 3
                    sh += [win(q, n, g) for q in (SEQ, NINES, ZEROS)] + [win(SEQ, n, d // 3), win(TIE + d, n, 0) if False else win(ONEONE, n, g)]
                    sh += [win(FIVE, d, 0)]
                if tier == 'quick' and n < p - 1: sh = sh[n % 3:n % 3 + 1]
                for s in sh:
                    for m in (range(5) if n > p and tier != 'quick' or n > p and n in (p + 1, nd) else [k % 5]): ps.append((s, m))
                    k += 1
            ps += [(win(pat, nd, 0), m) for m in range(5)] + [(win(pat, nd, (nd - 1) // 6), m) for m in (0, 3)]
            us.append(Unit('%s->%d' % (nm, w), 'c18.c', dict(W=w, TO=to), sorted(set(ps)), cost=w // 32, bounds='every digit count; digit windows, including the limits of the type and ties at the format precision'))
    return Check('C18', us)
