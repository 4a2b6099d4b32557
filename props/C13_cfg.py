from symex.spec import *

ASSUMPTIONS = ['random.sample returns any ordered selection of distinct positions; the clock jumps past the time limits '
               'of a group, or of the whole search, at any reading', 'runs that ask for more draws than the bound without timing out are cut']
NOT_COVERED = ['structures with more plies or panels, more rounds of draws than the bounds']


def configs(tier):
    r = []
    th = tier == 'thorough'

    def group(drops, n_max, K, min_drop=2, spacing=True, sym=False, n_pdl_max=1, top=False, bottom=False,
              last=False, middle=None, before=None, after=None):
        K += th
        per = 2 * max(drops) - min(drops)
        N = max(1, per * K)
        r.append(dict(name='group %s of %d, %d asked, %d rounds, spacing %s %d, sym %s, cover %s/%s, last %s, middle %s, %s/%s' % (
            drops, n_max, n_pdl_max, K, spacing, min_drop, sym, top, bottom, last, middle, before is not None,
            after is not None), fn='p_group', inputs=dict(
                draws=ArrOf(N, tuple(range(n_max)), int), expire=Int(1, K), drops=drops, n_max=n_max,
                min_drop=min_drop, spacing=spacing, sym=sym, n_pdl_max=n_pdl_max, top=top, bottom=bottom,
                last=last, middle=middle, before=before, after=after)))

    def prefer(drops, n_max, K, n_pdl_max, min_drop=2):
        K += th
        per = 2 * max(drops) - min(drops)
        r.append(dict(name='preference %s of %d, %d asked, %d rounds, spacing %d' % (drops, n_max, n_pdl_max, K, min_drop),
                      fn='p_prefer', inputs=dict(draws=ArrOf(per * K, tuple(range(n_max)), int), expire=Int(1, K),
                                                 drops=drops, n_max=n_max, min_drop=min_drop, n_pdl_max=n_pdl_max)))

    def create(plies, sym, ncov, N, spacing=True, min_drop=2, gmin=1, gmax=12, exp=6, n_ini=0):
        if th:
            N, exp = N * 2, exp + 4
        b = dict(draws=ArrOf(N, tuple(range(min(gmax, max(plies)))), int), expire=Int(1, exp), plies=plies, sym=sym,
                 n_covering=ncov, spacing=spacing, min_drop=min_drop, gmin=gmin, gmax=gmax)
        if n_ini:
            b['n_ini'] = n_ini
        r.append(dict(name='structure %s sym %s covering %d, %d draws, spacing %s %d, groups %d-%d, %d asked' % (
            plies, sym, ncov, N, spacing, min_drop, gmin, gmax, n_ini or 1),
            fn='p_create_all' if n_ini else 'p_create', inputs=b))
    group((1, 0), 4, 2)
    group((2, 0), 4, 2)
    group((2, 1, 0), 4, 2)
    group((1, 1, 0), 3, 2, n_pdl_max=2)
    group((1, 0), 3, 3, n_pdl_max=2)
    group((1, 0), 3, 3, n_pdl_max=5)
    group((0, 0), 3, 2, n_pdl_max=2)
    group((2, 1), 4, 2, top=True)
    group((2, 0), 4, 2, bottom=True)
    group((2, 1, 0), 5, 1, top=True, bottom=True)
    group((1, 0), 4, 2, top=True, bottom=True, spacing=False, n_pdl_max=2)
    group((2, 0), 4, 2, last=True, sym=True)
    group((2, 1, 1, 0), 4, 1, last=True, sym=True, middle=(0, 0, 4, 5))
    group((1, 0), 3, 2, last=True, sym=True, middle=(3, 4))
    group((0, 0), 3, 1, last=True, sym=True, middle=(0, 4))
    group((1, 0), 3, 2, last=False, sym=True, middle=(3, 4))
    group((2, 1), 4, 2, before=[[-1, 0, 1], [0, 1, 2]], min_drop=3)
    group((1, 0), 4, 2, after=[[-1, 0], [0, 1]], min_drop=3)
    prefer((1, 0), 3, 3, 1)
    prefer((2, 0), 4, 2, 1)
    prefer((2, 0), 4, 3, 2)
    prefer((2, 0), 4, 3, 1, 3)
    create((6, 4), True, 0, 3)
    create((6, 5), False, 1, 4)
    create((7, 5), True, 1, 4)
    create((7, 6), True, 0, 2)
    create((8, 6, 7), False, 0, 6, gmax=4)
    create((10, 8), True, 2, 3)
    create((12, 8), True, 1, 6, gmax=3)
    create((4, 6, 6), True, 0, 4, n_ini=2)
    create((6, 5), False, 1, 4, n_ini=2)
    create((6, 4), True, 0, 6, n_ini=3)
    for plies, sym, ncov, md, n_ini, N, R in (((8, 4), True, 0, 4, 2, 8, 9), ((8, 4), True, 1, 2, 2, 8, 10),
                                              ((5, 3), False, 0, 3, 2, 8, 9)):
        if th:
            N, R = N + 2, R + 3
        r.append(dict(name='timed structure %s sym %s covering %d, %d draws, %d readings, spacing %d, %d asked' % (
            plies, sym, ncov, N, R, md, n_ini), fn='p_create_timed', inputs=dict(
                draws=ArrOf(N, tuple(range(max(plies) // 2 if sym else max(plies))), int), ticks=ArrOf(R, (0, 1, 2), int),
                plies=plies, sym=sym, n_covering=ncov, min_drop=md, n_ini=n_ini)))
    for n_max in (3, 5):
        r.append(dict(name='formats, %d plies' % n_max, fn='p_format', inputs=dict(
            idx=[ArrOf(0, (0,), int), ArrOf(1, tuple(range(n_max)), int), ArrOf(2, tuple(range(n_max)), int)], n_max=n_max)))
    r.append(dict(name='layout of each panel', fn='p_each', inputs=dict(
        pdl=ArrOf((3, 3), (-1, 0, 1), int), levels=(0, 2, 5), which=ArrOf(4, (0, 1, 2), int))))
    for min_drop in (1, 2, 3):
        for bef, aft in ((0, 0), (2, 0), (0, 2)):
            r.append(dict(name='spacing filter %d, %d/%d' % (min_drop, bef, aft), fn='p_rules', inputs=dict(
                drop=ArrOf((2, 4), (0, 1, 2), int), before=ArrOf(bef, (0, 1), int), after=ArrOf(aft, (0, 1), int),
                n_panels=3 if not bef + aft else 2, min_drop=min_drop, spacing=Bool())))
    for plies, sym, ncov in (((6, 4), True, 0), ((8, 6, 4), True, 1), ((7, 5), True, 0), ((7, 6), True, 1), ((6, 5, 3), False, 0),
                             ((7, 5), False, 1), ((7, 5), False, 2), ((10, 6), True, 2)):
        n = max(plies)
        half = (n + 1) // 2 if sym else n
        r.append(dict(name='from table %s sym %s covering %d' % (plies, sym, ncov), fn='p_from_table', inputs=dict(
            drop=ArrOf(half, tuple(range(len(plies))), int), plies=plies, sym=sym, n_covering=ncov)))
    for rows in (1, 2, 3):
        for extra in (False, True):
            r.append(dict(name='initial layouts, %d rows, %s' % (rows, extra), fn='p_check_ini', inputs=dict(
                pdl=ArrOf((rows, 5), (-1, 2), int), plies=(3, 5), extra=extra)))
    return r
