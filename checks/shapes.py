"""window shapes, see ref_win in h/bid.h"""
PREC = {32: 7, 64: 16, 128: 34}
EMIN = {32: -101, 64: -398, 128: -6176}
EMAX = {32: 90, 64: 369, 128: 6111}
ZEROS, NINES, ONE, SEQ, FIVE, FOURNINES, P53, ONEONE, P23, SEVENS = range(10)
P63, P64, P31, P32, P127, FULL, P128, M63H, M63L, TWO, TWO5, EIGHT, THREE, FIVEONE = range(10, 24)
def win(pat, nd, g1=15, g2=15): return ((pat * 64 + nd) * 16 + g1) * 16 + g2
def full(nd): return win(15, nd)
def wins(w, cut=None, rich=1):
    """default windows of a width: around all-nines, powers of ten, small values, the 2^53/2^23 form switch, and the digit position `cut`"""
    p = PREC[w]; top = (p - 1) // 3; r = [win(NINES, p, 0), win(ONE, p, 0), win(ZEROS, 3, 0), win(SEQ, p, top)]
    if w == 64: r += [win(P53, 16, 0), win(P53, 16, 4)]
    if w == 32: r += [win(P23, 7, 0), win(P23, 7, 1)]
    if w == 128: r += [win(SEVENS, 34, 6)]
    if cut is not None and 0 < cut < p:
        g = (cut - 1) // 3
        r += [win(FIVE, cut, 0), win(FOURNINES, cut, 0), win(ZEROS, p, g), win(NINES, p, g), win(SEQ, p, g), win(ONEONE, min(cut + 1, p), g)]
        if cut // 3 != g: r += [win(SEQ, p, cut // 3)]
    if rich > 1: r += [win(SEQ, p, g) for g in range(top)] + [win(NINES, n, 0) for n in range(3, p)] + [win(ONEONE, n, n // 3 // 2) for n in range(4, p)]
    return sorted(set(r))
