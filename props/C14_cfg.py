from symex.spec import *

ASSUMPTIONS = ['1 <= minimum group size <= maximum group size', 'every panel has at least its covering plies',
               'the thickest panel has plies left to design besides covering and middle plies']
NOT_COVERED = ['larger ply counts, group sizes and numbers of panels']


def configs(tier):
    r = []
    th = tier == 'thorough'
    N = 48 if th else 20
    for sym in (True, False):
        for gmin in (1, 2, 3, 4, 5):
            for step in (0, 1):
                for lo in range(1, N + 16 * sym, 12):
                    hi = min(lo + 11, N + 16 * sym)
                    r.append(dict(name='laminate of %d to %d plies, sym %s, step %d, groups of %d plies or more' % (lo, hi, sym, step, gmin),
                                  fn='p_laminate',
                                  inputs=dict(n_plies=Int(lo, hi), gmin=gmin, extra=Int(0, 6), step=step, sym=sym)))
    for sym in (True, False):
        for cov in (0, 1, 2):
            for gmin in (1, 2, 4):
                for gmax in (gmin, gmin + 1, gmin + 3) if not th else range(gmin, gmin + 6):
                    r.append(dict(name='structure, sym %s, %d covering plies, groups of %d to %d plies' % (
                        sym, cov, gmin, gmax), fn='p_structure',
                        inputs=dict(a=Int(4, 28 if th else 16), b=Int(4, 28 if th else 16), gmin=gmin, gmax=gmax,
                                    cov=cov, sym=sym)))
            r.append(dict(name='allowed ply counts, sym %s, %d covering plies' % (sym, cov), fn='p_forbidden',
                          inputs=dict(gmin=Int(1, 6), extra=Int(0, 5), lo=Int(2 * cov + 2, 2 * cov + 5), num=12, cov=cov, sym=sym)))

    return r
