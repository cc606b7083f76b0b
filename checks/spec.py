"""Independent oracles shared by the property modules."""
import itertools
from fractions import Fraction


def harmonic_basis(order, nm):
    """independent oracle: solve the trace equations for every sorted index in terms of the reduced names"""
    keys = [t for t in itertools.combinations_with_replacement(range(3), order)]
    red = [tuple("xyz".index(x) for x in s) for s in nm]
    if any(tuple(sorted(r)) != r or r not in keys for r in red):
        return None
    unk = [k for k in keys if k not in red]
    rows = []
    if order >= 2:
        for t in itertools.combinations_with_replacement(range(3), order - 2):
            rows.append([tuple(sorted(t + (a, a))) for a in range(3)])
    # linear system A u = -B r
    cols = unk + red
    M = [[Fraction(sum(1 for x in row if x == c)) for c in cols] for row in rows]
    piv = []
    r = 0
    for j in range(len(unk)):
        p = next((i for i in range(r, len(M)) if M[i][j] != 0), None)
        if p is None:
            return None
        M[r], M[p] = M[p], M[r]
        M[r] = [x / M[r][j] for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][j] != 0:
                f = M[i][j]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(j)
        r += 1
    if any(any(x != 0 for x in row) for row in M[r:]):
        return None
    out = {k: {i: Fraction(1)} for i, k in enumerate(red)}
    for i, j in enumerate(piv):
        out[unk[j]] = {k: -M[i][len(unk) + k] for k in range(len(red)) if M[i][len(unk) + k] != 0}
    return out
