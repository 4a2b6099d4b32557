import numpy as np
from vh import check, raises
from hlib import cons, bad_pairs, contig_ok, compliant
from src.guidelines.internal_contig import internal_contig, internal_contig2
from src.guidelines.internal_diso_contig import internal_diso_contig
from src.guidelines.external_contig import external_contig
from src.guidelines.external_diso_contig import external_diso_contig


def junction_ok(before, row, n):
    """no more than n adjacent identical plies across the junction"""
    if before.size == 0 or row.size == 0:
        return True
    a = 0
    same = True
    for k in range(before.size):
        same = same and before[before.size - 1 - k] == before[before.size - 1]
        a = a + (1 if same else 0)
    b = 0
    same = True
    for k in range(row.size):
        same = same and row[k] == before[before.size - 1]
        b = b + (1 if same else 0)
    return b == 0 or a + b <= n


def expect(rows, keep, got, what):
    """got holds the rows to keep, in order"""
    k = 0
    good = True
    for i in range(rows.shape[0]):
        if keep[i]:
            good = good and k < got.shape[0] and (got[k] == rows[i]).all()
            k = k + 1
    check(good and got.shape[0] == k and got.shape[1] == rows.shape[1], what)


def tables(rows, pair):
    second = None
    if pair:
        second = np.zeros(rows.shape, int)
        for i in range(rows.shape[0]):
            for j in range(rows.shape[1]):
                second[i, j] = 1000 + 10 * i + j
    return np.copy(rows), second


def p_internal(rows, pair, kind, contig, diso, n_contig, delta, angles):
    c = cons(kind, contig=contig, n_contig=n_contig, diso=diso, delta_angle=delta, set_of_angles=angles)
    t1, t2 = tables(rows, pair)
    keep_c = [not contig or contig_ok(rows[i], n_contig) for i in range(rows.shape[0])]
    keep = [keep_c[i] and (not diso or bad_pairs(rows[i], delta) == 0) for i in range(rows.shape[0])]
    g1, g2 = internal_contig(t1, c, t2)
    expect(rows, keep_c, g1, 'contiguity within the group')
    if pair:
        expect(t2, keep_c, g2, 'contiguity within the group, paired table')
    g1, g2 = internal_diso_contig(t1, c, t2)
    expect(rows, keep, g1, 'disorientation and contiguity within the group')
    if pair:
        expect(t2, keep, g2, 'disorientation and contiguity within the group, paired table')
    if not pair:
        check(g2 is None, 'second table out of nowhere')
    check((t1 == rows).all(), 'candidate table modified')
    return 0


def p_one(stack, kind, contig, n_contig):
    """one lay-up given as a vector"""
    c = cons(kind, contig=contig, n_contig=n_contig, diso=False)
    ok = not contig or contig_ok(stack, n_contig)
    check(internal_contig2(stack, c) == ok, 'contiguity of one lay-up')
    check(internal_contig2(stack.reshape((1, stack.size)), c) == ok, 'contiguity of one lay-up (row)')
    g, _ = internal_contig(stack, c)
    check((g.shape[0] == 1) == ok, 'contiguity filter of one lay-up')
    g, _ = internal_diso_contig(stack, c)
    check((g.shape[0] == 1) == ok, 'filter of one lay-up')
    return ok


def p_external(rows, before, n_plies, pair, kind, contig, diso, n_contig, delta, angles):
    c = cons(kind, contig=contig, n_contig=n_contig, diso=diso, delta_angle=delta, set_of_angles=angles)
    t1, t2 = tables(rows, pair)
    b0 = np.copy(before)
    keep_c = [not contig or junction_ok(before, rows[i, :n_plies], n_contig) for i in range(rows.shape[0])]
    keep = [keep_c[i] and (not diso or before.size == 0 or compliant(rows[i, 0], before[-1], delta))
            for i in range(rows.shape[0])]
    g1, g2 = external_contig(t1, n_plies, c, before, t2)
    expect(rows, keep_c, g1, 'contiguity at the junction')
    if pair:
        expect(t2, keep_c, g2, 'contiguity at the junction, paired table')
    g1, g2 = external_diso_contig(t1, n_plies, c, before, t2)
    expect(rows, keep, g1, 'disorientation and contiguity at the junction')
    if pair:
        expect(t2, keep, g2, 'disorientation and contiguity at the junction, paired table')
    check((t1 == rows).all() and (before == b0).all(), 'inputs modified')
    return 0
