from symex.spec import *

ASSUMPTIONS = ['real arithmetic is exact, results are compared within 1e-9',
               'src.CLA (absent from the repository) is only imported by these modules, the functions checked do not use it']
NOT_COVERED = ['laminates thicker than the stated ply counts']


def configs(tier):
    import numpy as np
    r = []
    th = tier == 'thorough'
    A = [-45, 0, 45, 90]
    for kind in ('BELLA', 'LAYLA'):
        for angles in ((-45, 0, 45, 90), (-60, -30, 0, 30, 60, 90), tuple(range(-75, 91, 15))):
            r.append(dict(name='%s, cosines and sines, angles %s' % (kind, angles), fn='p_trig',
                          inputs=dict(angles=angles, kind=kind, k=Int(0, len(angles) - 1))))
    for sym in (True, False):
        s = 'symmetric' if sym else 'asymmetric'
        for counts in ([1, 2], [3, 4], [5, 8], [7, 10], [16, 21]) if not th else [[k] for k in range(1, 41)]:
            for angles in ((-45, 0, 45, 90), (-60, -30, 0, 30, 60, 90)):
                r.append(dict(name='%s, contributions of the plies, %s, angles %s' % (s, counts, angles), fn='p_ply',
                              inputs=dict(counts=counts, angles=angles, sym=sym, table=RealArr((len(angles), 4), -1, 1))))
            r.append(dict(name='%s, moments of areas, %s' % (s, counts), fn='p_moments', inputs=dict(counts=counts, sym=sym)))
        for n in (range(1, 5 if not sym else 8) if not th else range(1, 5 if not sym else 9)):
            r.append(dict(name='%s lay-ups, %d plies' % (s, n), fn='p_layup',
                          inputs=dict(n=n, ss=Stack((n + 1) // 2 if sym else n, A), sym=sym)))
        for n in (11, 14) if not th else (9, 10, 11, 12, 15, 16, 20, 25):
            m = (n + 1) // 2 if sym else n
            for k in range(m):
                # the contributions add up whatever the other plies
                r.append(dict(name='%s lay-ups, %d plies, plies %d and %d' % (s, n, k, (k + m // 2) % m), fn='p_layup',
                              inputs=dict(n=n, ss=[OneOf(A) if j in (k, (k + m // 2) % m) else A[(3 * j + j // 2) % 4] for j in range(m)], sym=sym)))
        for n in (5, 8, 9, 12) if not th else range(2, 25):
            m = (n + 1) // 2 if sym else n
            for g in (1, 2, 3):
                cuts = [q for q in parts(m, g)]
                if cuts:
                    for k in range(0, len(cuts), 12):
                        r.append(dict(name='%s, groups, %d plies in %d groups, %d' % (s, n, g, k), fn='p_layla_moments',
                                      inputs=dict(n=n, sizes=OneOf([np.array(q) for q in cuts[k:k + 12]]), sym=sym)))
        for counts in ([4, 6], [3, 6], [4, 5, 6], [2, 4, 8]) if not th else ([4, 6], [3, 6], [4, 5, 6], [2, 4, 8], [6, 8, 10], [2, 12], [7, 9, 11]):
            m = (counts[-1] + 1) // 2 if sym else counts[-1]
            r.append(dict(name='%s, ply drops, %s plies' % (s, counts), fn='p_pdl',
                          inputs=dict(counts=counts, pdl=ArrOf((len(counts), m), [-1, 3]), sym=sym)))
        for n in (4, 5, 10, 13) if not th else range(1, 31):
            r.append(dict(name='%s, changes, %d plies' % (s, n), fn='p_options', inputs=dict(n=n, angles=(-60, -45, 0, 30, -30, 45, 60, 90), sym=sym)))
        for n in (4, 5, 6, 7) if not th else range(2, 12):
            m = (n + 1) // 2 if sym else n
            for k in range(0, min(4, n // 2 if sym else n)):
                q = 4 - k if m > 4 else m
                for z in sorted({min(z, m - q) for z in range(0, m, q)}):
                    ss = [A[(3 * j + j // 2) % 4] for j in range(m)]
                    for j in range(z, min(z + q, m)):
                        ss[j] = OneOf(A + [666])
                    rest = [j % m for j in range(z + q, z + m) if not (sym and n % 2 and j % m == m - 1)]
                    for j in rest[:max(0, k - q)]:
                        ss[j] = 666
                    r.append(dict(name='%s, partial lay-up, %d plies, %d in the queue, from ply %d' % (s, n, k, z), fn='p_queue',
                                  inputs=dict(n=n, ss=ss, queue=[OneOf(A) for j in range(k)], sym=sym)))
        for n in (8, 9, 12) if not th else range(4, 25):
            for size in (1, 2, 3):
                h = n // 2 if sym else n
                if 2 * size <= h:
                    for a1, a2 in ((45, 0), (-60, 90), (60, -45)):
                        for form in ('blocks', 'positions'):
                            for p in range(1, h - size + 2, 4):
                                r.append(dict(name='%s, swaps of %d plies of %d, %s, %d and %d, from %d' % (s, size, n, form, a1, a2, p), fn='p_swap',
                                              inputs=dict(n=n, a1=a1, a2=a2, p1=Int(p, min(p + 3, h - size + 1)), p2=Int(1, h - size + 1),
                                                          size=size, sym=sym, form=form)))
    return r


def parts(n, k):
    if k == 1:
        return [[n]] if n > 0 else []
    return [[a] + q for a in range(1, n) for q in parts(n - a, k - 1)]
