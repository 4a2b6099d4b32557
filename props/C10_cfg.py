from symex.spec import *
import numpy as np

STD = (0, 45, 90, -45)
MORE = (0, 30, 45, 60, 90, -60, -45, -30)
ASSUMPTIONS = ['the plies already placed follow the active rules', 'symmetric laminates for LAYLA',
               'laminates that are not symmetric: at least five plies with a two-ply damage tolerance rule, three with the one-ply rule',
               'plies fixed by a two-ply damage tolerance rule may or may not count for disorientation and contiguity']
NOT_COVERED = ['longer partial lay-ups than stated', 'LAYLA: laminates that are not symmetric']


def configs(tier):
    r = []
    th = tier == 'thorough'

    def add(kind, level, split, n, middle, angles, rule, delta, n_contig, cands):
        r.append(dict(name='%s, ply %d of %d%s%s, damage tolerance %d, disorientation %d, contiguity %d, %d angles, %d candidates' % (
            kind, level, n, ', middle ply' if middle else '', ', group starting at %d' % split if kind == 'LAYLA' else '',
            rule, delta, n_contig, len(angles), len(cands)), fn='p_prune',
            inputs=dict(kind=kind, before=Stack(level, angles) if level else Const(np.array([], int)), split=split, n=n,
                        middle=middle, cands=Const(np.array(cands, int)), rule=rule, delta=delta, n_contig=n_contig)))
    rules = [(ru, d, k) for ru in (0, 1, 2, 3) for d in (0, 45) for k in (0, 2, 3)]
    rules += [(0, 45, 4), (1, 0, 5), (2, 45, 5), (0, 0, 6), (1, 90, 4), (2, 30, 3), (3, 30, 5), (3, 90, 0), (3, 90, 2), (2, 90, 3)]
    for kind in ('BELLA', 'LAYLA'):
        for j, (ru, d, k) in enumerate(rules):
            for level in range(5 if not th else 8):
                if not th and level == 4 and j % 2:
                    continue
                splits = [0]
                if kind == 'LAYLA':
                    splits = sorted(set((0, level // 2, level)) if th or j % 2 else set((0, level)) if level < 3 else set((level // 2,)))
                ang = MORE if d == 30 and level < 5 else STD
                for sp in splits:
                    add(kind, level, sp, level + 3, True, ang, ru, d, k, ang)
                    add(kind, level, sp, level + 1, False, ang, ru, d, k, ang)
                    add(kind, level, sp, level + 1, True, ang, ru, d, k, ang)
                if th:
                    add(kind, level, 0, level + 1, False, MORE, ru, d, k, (0, 30, 90))
        add(kind, 2, 0, 6, False, MORE, 0, 45, 2, (30, 45, 60))
        add(kind, 2, 1, 6, False, STD, 2, 45, 2, (90,))
        add(kind, 4, 2, 6, False, STD, 1, 0, 4, (90, -45))
    for j, (ru, d, k) in enumerate(rules):
        for level in range(5 if not th else 8):
            ang = MORE if d == 30 and level < 5 else STD
            for n in (level + 1, level + 3):
                if n < (5 if ru > 1 else 3 if ru else 2):
                    continue
                nb = (level + 1) // 2
                r.append(dict(name='BELLA, not symmetric, ply %d of %d, damage tolerance %d, disorientation %d, contiguity %d, %d angles' % (
                    level, n, ru, d, k, len(ang)), fn='p_asym',
                    inputs=dict(bot=Stack(nb, ang) if nb else Const(np.array([], int)),
                                top=Stack(level - nb, ang) if level - nb else Const(np.array([], int)), n=n,
                                cands=Const(np.array(ang, int)), rule=ru, delta=d, n_contig=k)))
    return r
