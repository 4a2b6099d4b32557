"""Pruning of the ply-by-ply searches"""
import numpy as np
from vh import check, assume
from hlib import cons, compliant, is45, contig_ok
from src.BELLA.pruning import pruning_diso_contig_damtol as prune_bella
from src.LAYLA_V02.pruning import pruning_diso_contig_damtol as prune_layla


class Targets:
    def __init__(self, n_plies):
        self.n_plies = n_plies


def mirrored(stack, middle):
    if middle:
        return np.hstack((stack, np.flip(stack[:-1], axis=0)))
    return np.hstack((stack, np.flip(stack, axis=0)))


def breaks(before, a, rule, delta, n_contig, last, middle, strict):
    """the new ply breaks a rule. strict: plies fixed for damage tolerance by a
    two-ply rule are exempt from disorientation and contiguity"""
    level = before.size
    if rule > 0 and level == 0 and not is45(a):
        return True
    if rule > 1 and level == 1 and not is45(a):
        return True
    if rule == 2 and level == 1 and a != -before[0]:
        return True
    skip = 1 if rule > 1 and strict else 0
    if last and middle and a != 0 and a != 90:
        return True
    if delta > 0 and level > skip and not compliant(before[-1], a, delta):
        return True
    if n_contig > 0:
        s = np.hstack((before, np.array([a], int)))
        if last:
            s = mirrored(s, middle)
            if skip:
                s = s[1:-1]
        else:
            s = s[skip:]
        if not contig_ok(s, n_contig):
            return True
    return False


def p_prune(kind, before, split, n, middle, cands, rule, delta, n_contig):
    """n: number of plies designed, the middle ply included"""
    kw = dict(sym=True, diso=delta > 0, contig=n_contig > 0, dam_tol=rule > 0)
    if rule > 0:
        kw['dam_tol_rule'] = rule
    if delta > 0:
        kw['delta_angle'] = delta
    if n_contig > 0:
        kw['n_contig'] = n_contig
    c = cons(kind, **kw)
    level = before.size
    last = level == n - 1
    # the plies already placed follow the rules
    for k in range(level):
        assume(not breaks(before[:k], before[k], rule, delta, n_contig, False, False, True))
    given = np.copy(before)
    if kind == 'BELLA':
        r = prune_bella(child_ss=np.copy(cands), mother_ss_bot=before, level=level,
                        n_plies_to_optimise=n, constraints=c, has_middle_ply=middle)
    else:
        # only the last plies of the previous groups are passed on
        simp = before[:split]
        if (n_contig > 0 or delta > 0) and simp.size > c.n_contig:
            simp = simp[-c.n_contig:]
        r = prune_layla(child_ss=np.copy(cands), mother_ss_bot=before[split:], ss_bot_simp=simp, level=level,
                        constraints=c, targets=Targets(2 * n - 1 if middle else 2 * n))
    check(np.array_equal(before, given), 'partial lay-up modified')
    if middle and last:
        cands = np.array([0, 90], int)
    n_kept = 0
    for a in cands:
        kept = False
        if r is not None:
            kept = a in r
        if kept:
            n_kept = n_kept + 1
            check(not breaks(before, a, rule, delta, n_contig, last, middle, True), 'ply kept against a rule')
        else:
            check(breaks(before, a, rule, delta, n_contig, last, middle, False), 'ply dropped that breaks no rule')
    check((r is None) == (n_kept == 0), 'dead end reported')
    if r is not None:
        check(r.size == n_kept, 'candidates added or repeated')
    return 0


def breaks_asym(bot, top, a, rule, delta, n_contig, last, strict):
    """the same for laminates that are not symmetric, the plies being placed
    from the surfaces inwards, alternately at the bottom and at the top"""
    level = bot.size + top.size
    even = level % 2 == 0
    own, other = bot, np.flip(top, axis=0)
    if not even:
        own, other = np.flip(top, axis=0), bot
    if rule > 0 and own.size == 0 and not is45(a):
        return True
    if rule > 1 and own.size == 1 and not is45(a):
        return True
    if rule == 2 and own.size == 1 and a != -own[0]:
        return True
    skip = 1 if rule > 1 and strict else 0
    if delta > 0 and own.size > skip and not compliant(own[-1], a, delta):
        return True
    if delta > 0 and last and other.size > skip and not compliant(other[-1], a, delta):
        return True
    if n_contig > 0:
        if last:
            s = np.hstack((bot, np.array([a], int), top))
            if skip:
                s = s[1:-1]
        else:
            s = np.hstack((own, np.array([a], int)))
            s = s[skip:]
        if not contig_ok(s, n_contig):
            return True
    return False


def p_asym(bot, top, n, cands, rule, delta, n_contig):
    """n: number of plies"""
    kw = dict(sym=False, diso=delta > 0, contig=n_contig > 0, dam_tol=rule > 0)
    if rule > 0:
        kw['dam_tol_rule'] = rule
    if delta > 0:
        kw['delta_angle'] = delta
    if n_contig > 0:
        kw['n_contig'] = n_contig
    c = cons('BELLA', **kw)
    level = bot.size + top.size
    last = level == n - 1
    for k in range(level):
        b = bot[:(k + 1) // 2]
        t = top[top.size - k // 2:]
        assume(not breaks_asym(b, t, bot[k // 2] if k % 2 == 0 else top[top.size - 1 - k // 2], rule, delta, n_contig,
                               False, True))
    bot0, top0 = np.copy(bot), np.copy(top)
    r = prune_bella(child_ss=np.copy(cands), mother_ss_bot=bot, mother_ss_top=top, level=level, n_plies_to_optimise=n,
                    constraints=c)
    check(np.array_equal(bot, bot0) and np.array_equal(top, top0), 'partial lay-up modified')
    n_kept = 0
    for a in cands:
        kept = False
        if r is not None:
            kept = a in r
        if kept:
            n_kept = n_kept + 1
            check(not breaks_asym(bot, top, a, rule, delta, n_contig, last, True), 'ply kept against a rule')
        else:
            check(breaks_asym(bot, top, a, rule, delta, n_contig, last, False), 'ply dropped that breaks no rule')
    check((r is None) == (n_kept == 0), 'dead end reported')
    if r is not None:
        check(r.size == n_kept, 'candidates added or repeated')
    return 0
