from symex.spec import *

STD = (0, 45, 90, -45)
FINE = (0, 45, 90, -45, 30, -30)
ASSUMPTIONS = ['the input meets the damage-tolerance rule, its middle ply is 0 or 90 degrees (symmetric, odd ply count)']
NOT_COVERED = ['thicker laminates', 'finding a repair whenever one exists (the search is a heuristic)']


def configs(tier):
    r = []
    th = tier == 'thorough'

    def rep(sym, n, nq, rule, diso, delta, nc, nd, angles=STD, kind='BELLA'):
        no = (n // 2 if sym else n) - nq
        r.append(dict(name='%s, %d plies (%d queued), damage tolerance rule %d, disorientation %s, contiguity %d, n_D1 %d, %s, %d angles'
                      % ('symmetric' if sym else 'asymmetric', n, nq, rule, delta if diso else 'off', nc, nd, kind, len(angles)),
                      fn='p_repair', inputs=dict(
                          outer=ArrOf(no, angles, int), centre=OneOf((0, 90)) if sym and n % 2 else None,
                          queue=ListOf([OneOf(angles) for _ in range(nq)]), n=n, sym=sym, rule=rule, diso=diso,
                          delta=delta, n_contig=nc, n_D1=nd, angles=angles, kind=kind)))
    rules = ((True, 45, 2), (True, 45, 3), (False, 45, 2), (True, 45, 0))
    for kind in ('BELLA', 'LAYLA'):
        for rule in (0, 1, 2) if kind == 'LAYLA' else (0, 1, 2, 3):
            for diso, delta, nc in rules:
                if kind == 'LAYLA' and not (nc == 2 and diso) and not th:
                    continue
                for n, nq in ((8, 0), (11, 0), (9, 1), (8, 2)) + (((12, 0), (10, 1)) if th else ()):
                    for nd in (1, 3):
                        rep(True, n, nq, rule, diso, delta, nc, nd, STD, kind)
                for n, nq in (((5, 0), (5, 1)) if rule == 0 else ((6, 0), (5, 0), (6, 1))) + (((6, 0), (6, 1), (7, 0)) if th else ()):
                    for nd in (1, 2):
                        rep(False, n, nq, rule, diso, delta, nc, nd, STD, kind)
    for rule in (0, 2):
        rep(True, 8, 0, rule, True, 30, 2, 2, FINE)
        rep(True, 8, 1, rule, True, 30, 2, 2, FINE)
        rep(False, 5, 0, rule, True, 30, 2, 2, FINE)
    for rule in (0, 2):
        # deep laminates made of few fibre orientations
        for nc in (4, 5):
            rep(True, 14, 0, rule, False, 45, nc, 2, (45, -45))
    for rule in (0, 1):
        for no, nq in ((3, 1), (4, 0)):
            r.append(dict(name='list of two attempts, %d plies, %d queued, damage tolerance rule %d' % (2 * (no + nq), nq, rule),
                          fn='p_list', inputs=dict(
                              outers=ListOf([ArrOf(no, STD[:3], int) for _ in range(2)]),
                              queues=ListOf([ListOf([OneOf(STD[:3]) for _ in range(nq)]) for _ in range(2)]),
                              n=2 * (no + nq), rule=rule, diso=True, delta=45, n_contig=2, n_D1=2, angles=STD, kind='BELLA')))
    for k, m in ((2, 3), (3, 3), (4, 2)):
        r.append(dict(name='smallest of %d rows of %d' % (k, m), fn='p_smallest', inputs=dict(
            rows=ListOf([ListOf([OneOf(range(3)) for _ in range(m)]) for _ in range(k)]))))
    for kind in ('BELLA', 'LAYLA'):
        for angles in (STD, FINE):
            r.append(dict(name='order of queued plies, %s, %d angles' % (kind, len(angles)), fn='p_order', inputs=dict(
                adj=OneOf(angles), queue=ListOf([OneOf(angles) for _ in range(2)]), angles=angles, kind=kind)))
    return r
