from symex.spec import *

STD = (0, 45, 90, -45)
FINE = (0, 45, 90, -45, 30, -30)
PS = [(10, 10, 10, 10, 0), (10, 0, 10, 0, 20), (0, 25, 0, 15, 30), (20, 0, 5, 0, 40), (0, 0, 0, 0, 0)]
ASSUMPTIONS = ['lay-ups meet the damage-tolerance rule and have a 0 or 90 degree middle ply if symmetric with an odd ply count',
               'the minimum ply counts fit in the laminate',
               'a symmetric lay-up counts as compliant when its halves are, its middle ply left aside']
NOT_COVERED = ['laminates thicker than the bound', "repair for the 10% rule expressed with lamination parameters (Abdalla)"]


def fits(P, n, bal, sym, rule, ten, R=None):
    from math import ceil
    if R is None:
        sep = 2 * P[1] > P[4] or 2 * P[3] > P[4]
        R = P[:4] + (0,) if sep else (P[0], 0, P[2], 0, P[4])
    if not ten:
        R = (0,) * 5
    up = lambda a, b: -(-a // b)
    r = [up(x * n, 100) for x in R]
    if sym:
        r = [up(x, 2) for x in r]
    d = {0: 0, 1: 1, 2: 2, 3: 2}[rule] * (1 if sym else 2)
    if bal:
        m = max(r[1], r[3], up(r[4], 2))
        r[1] = r[3] = m
        r[4] = 2 * m
    a, b = max(r[1], d), max(r[3], d)
    if bal:
        a = b = max(a, b)
    return r[0] + r[2] + max(a + b, r[4]) <= (n // 2 if sym else n)


def configs(tier):
    r = []
    th = tier == 'thorough'
    for sym in (True, False):
        for rule in (0, 1, 2, 3):
            for P in PS:
                for bal in (True, False):
                    for ten in (True, False):
                        if ten != (P is not PS[4]):
                            continue
                        for angles in (STD, FINE):
                            if angles is FINE and (rule in (1, 3) or P in (PS[2], PS[3])):
                                continue
                            sizes = (8, 11, 14) if sym else (5, 6)
                            if th:
                                sizes += (16,) if sym else (7, 8)
                            if angles is FINE:
                                sizes = sizes[:-1]
                            for n in sizes:
                                if not fits(P, n, bal, sym, rule, ten):
                                    continue
                                r.append(dict(name='repair sym %s rule %d %s bal %s, %d angles, %d plies' % (
                                    sym, rule, P, bal, len(angles), n), fn='p_repair', inputs=dict(
                                    half=Stack(n // 2 if sym else n, angles), mid=OneOf((0, 90)) if sym and n % 2 else None, P=P, bal=bal, ten=ten, sym=sym,
                                    rule=rule, angles=angles, kind='BELLA')))
    for sym in (True, False):
        for rule in (0, 1, 2):
            for P in (PS[0], PS[2], (5, 30, 5, 0, 0), (0, 0, 0, 25, 40)):
                for bal in (True, False):
                    for n in (10, 13) if sym else (6,):
                        R = P[:4] + (max(P[4], P[1] + P[3]),)
                        if fits(None, n, bal, sym, rule, True, R):
                            r.append(dict(name='repair LAYLA sym %s rule %d %s bal %s, %d plies' % (
                                sym, rule, P, bal, n), fn='p_repair', inputs=dict(
                                half=Stack(n // 2 if sym else n, STD), mid=OneOf((0, 90)) if sym and n % 2 else None,
                                P=P, bal=bal, ten=True, sym=sym, rule=rule, angles=STD, kind='LAYLA')))
    for P in PS[:4] + [(12.5, 5, 15, 5, 0), (30, 0, 30, 0, 10)]:
        for sym in (True, False):
            for bal in (True, False):
                for lo in (1, 13, 25, 37) + ((49, 61, 73, 85) if th else ()):
                    r.append(dict(name='minimum %s sym %s bal %s, %d-%d plies' % (P, sym, bal, lo, lo + 11),
                                  fn='p_mini', inputs=dict(n=Int(lo, lo + 11), P=P, bal=bal, sym=sym, kind='BELLA')))
    for sym in (True, False):
        for n, q in ((6, 1), (7, 2)) if sym else ((4, 2), (5, 1)):
            r.append(dict(name='comparison sym %s, %d plies, %d in the queue' % (sym, n, q), fn='p_equal', inputs=dict(
                ss=ArrOf(n, (0, 45, 90, -45, 666), int), queue=ArrOf(q, STD, int), sym=sym, ini=Stack(n, STD))))
            r.append(dict(name='lamination parameters sym %s, %d plies, %d in the queue' % (sym, n, q), fn='p_lampam', inputs=dict(
                ss=ArrOf(n, (0, 45, 90, -45, 666), int), queue=ArrOf(q, STD, int), sym=sym, angles=STD)))
        for rule in (0, 1, 2, 3):
            for p_A in (100, 50, 30):
                n = 6 if sym else 4
                if th:
                    n += 1
                for kind in ('BELLA', 'LAYLA'):
                    if kind == 'LAYLA' and rule == 3:
                        continue
                    r.append(dict(name='plies to modify sym %s rule %d, %d%% of %d plies, %s' % (sym, rule, p_A, n, kind),
                                  fn='p_ind', inputs=dict(ss=ArrOf(n, (0, 45, 90, -45, 666), int), queue=ArrOf(1 if rule == 0 else 2, STD, int),
                                                          sym=sym, rule=rule, p_A=p_A, kind=kind)))
    return r
