from symex.spec import *

STD = (0, 45, 90, -45)
THREE = (0, 45, 90)
FINE = (0, 45, 90, -45, 30, -30, 60, -60)
ASSUMPTIONS = ['the contiguity limit is between 2 and 6, as the settings allow']
NOT_COVERED = ['candidate tables of more than three rows, groups or neighbours longer than the bound']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for kind in ('BELLA', 'LAYLA'):
        for contig in (True, False):
            for diso in (True, False):
                for pair in (True, False):
                    for nc in (2, 3, 4, 5, 6):
                        if not contig and nc != 4 and not th:
                            continue
                        if kind == 'LAYLA' and not (contig and diso and pair) and not th:
                            continue
                        for rows, n, angles, delta in ((1, nc + 2, STD, 45), (2, nc + 1, THREE, 45),
                                                       (2, 3, FINE, 30), (1, nc, STD, 60), (3, 3, THREE, 45)):
                            if th and rows == 1:
                                n += 2
                            r.append(dict(name='%s contiguity %s %d disorientation %s %d, %d groups of %d plies, %d angles, paired %s' % (
                                kind, contig, nc, diso, delta, rows, n, len(angles), pair), fn='p_internal',
                                inputs=dict(rows=ArrOf((rows, n), angles), pair=pair, kind=kind, contig=contig,
                                            diso=diso, n_contig=nc, delta=delta, angles=STD if angles == THREE else angles)))
                        for rows, n, m, npl in ((1, nc + 1, nc + 1, nc + 1), (2, 2, nc, 2), (2, nc, 2, nc), (1, 4, 3, 2),
                                                (2, 2, 0, 2), (1, 1, 1, 1), (2, 3, 1, 1), (1, nc + 1, 1, nc),
                                                (1, 3, nc - 1, 3)):
                            angles = STD if rows == 1 else THREE
                            r.append(dict(name='%s contiguity %s %d disorientation %s, %d groups of %d plies (%d checked) after %d plies, paired %s' % (
                                kind, contig, nc, diso, rows, n, npl, m, pair), fn='p_external',
                                inputs=dict(rows=ArrOf((rows, n), angles), before=Stack(m, angles), n_plies=npl, pair=pair,
                                            kind=kind, contig=contig, diso=diso, n_contig=nc, delta=45, angles=STD)))
        for nc in (2, 3, 4, 5, 6):
            for n in (1, nc, nc + 1, nc + 3) + ((nc + 6,) if th else ()):
                r.append(dict(name='%s one lay-up of %d plies, contiguity %d' % (kind, n, nc), fn='p_one',
                              inputs=dict(stack=Stack(n, STD), kind=kind, contig=True, n_contig=nc)))
        r.append(dict(name='%s one lay-up, contiguity off' % kind, fn='p_one',
                      inputs=dict(stack=Stack(5, STD), kind=kind, contig=False, n_contig=2)))
    return r
