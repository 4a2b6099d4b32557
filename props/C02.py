import numpy as np
from vh import check, assume, close
from hlib import cons, count_windows, strip_outer
from src.guidelines.contiguity import (
    is_contig, calc_n_viola_contig, calc_contig_vector,
    calc_matrix_viol_contig, calc_penalty_contig_mp, calc_penalty_contig_ss,
    penalty_contig)
from src.guidelines.internal_contig import internal_contig2


class Settings:
    """settings giving the number of plies fixed for damage tolerance instead of a rule"""
    def __init__(self, n_contig, n_plies):
        self.dam_tol = n_plies > 0
        self.n_plies_dam_tol = n_plies
        self.n_contig = n_contig


def settings(kind, n, rule):
    if kind == 'plies':
        return Settings(n, rule)
    if rule == 0:
        return cons(kind, contig=True, n_contig=n)
    return cons(kind, contig=True, n_contig=n, dam_tol=True, dam_tol_rule=rule)


def p_checkers(stack, n):
    before = np.copy(stack)
    w = count_windows(stack, n)
    r = is_contig(stack, n)
    check(bool(r) == (w == 0), 'is_contig verdict')
    c = cons(contig=True, n_contig=n)
    check(bool(internal_contig2(stack, c)) == (w == 0), 'internal_contig2 verdict')
    c2 = cons('LAYLA', contig=True, n_contig=n)
    check(bool(internal_contig2(stack, c2)) == (w == 0), 'internal_contig2 verdict (LAYLA)')
    check(bool(internal_contig2(np.copy(stack).reshape((1, stack.size)), c)) == (w == 0),
          'internal_contig2 verdict, row vector')
    check((stack == before).all(), 'lay-up modified')
    return bool(r)


def p_longest(stack, n):
    """verdict stated with the longest block instead of windows"""
    longest = 0
    run = 0
    for i in range(stack.size):
        if i > 0 and stack[i] == stack[i - 1]:
            run = run + 1
        else:
            run = 1
        if run > longest:
            longest = run
    check(bool(is_contig(stack, n)) == (longest <= n), 'longest block')
    return longest


def p_inactive(stack):
    c = cons()
    check(bool(internal_contig2(stack, c)), 'inactive rule rejects')
    check(calc_penalty_contig_ss(stack, c) == 0, 'inactive rule penalised')
    r = calc_penalty_contig_mp([stack], c)
    check(r[0] == 0, 'inactive rule penalised')
    return True


def p_counts(stack, n, kind, rule):
    """counts and penalty of one lay-up"""
    c = settings(kind, n, rule)
    before = np.copy(stack)
    v = calc_contig_vector(stack, n)
    tot = 0
    for i in range(v.size):
        ident = True
        for j in range(n):
            if stack[i + j] != stack[i + j + 1]:
                ident = False
        check((v[i] != 0) == ident, 'violation vector')
        check(v[i] == 0 or v[i] == 1, 'violation vector entries')
        tot = tot + v[i]
    check(tot == count_windows(stack, n), 'violation vector sum')
    sub = strip_outer(stack, rule)
    w = count_windows(sub, n)
    r = calc_penalty_contig_ss(stack, c)
    check(r == w, 'single lay-up count')
    check((stack == before).all(), 'lay-up modified')
    return int(r)


def p_counts_mp(a, b, n, kind, rule):
    """counts per panel"""
    c = settings(kind, n, rule)
    ss = [a, b]
    r = calc_penalty_contig_mp(ss, c)
    check(len(r) == 2, 'one count per panel')
    check(r[0] == count_windows(strip_outer(a, rule), n), 'count of first panel')
    check(r[1] == count_windows(strip_outer(b, rule), n), 'count of second panel')
    check(len(ss) == 2 and ss[0].size == a.size, 'inputs modified')
    m = calc_matrix_viol_contig(ss, n)
    for k in range(2):
        check(m[k].size == ss[k].size, 'matrix of violations, shape')
        for i in range(ss[k].size):
            ident = i + n < ss[k].size
            for j in range(n):
                if i + j + 1 < ss[k].size and ss[k][i + j] != ss[k][i + j + 1]:
                    ident = False
            check((m[k][i] != 0) == ident, 'matrix of violations')
    return [int(r[0]), int(r[1])]


def p_penalty(viola, coeff, norm):
    r = penalty_contig(viola.shape[0], viola, contig=True, coeff_contig=coeff, norm_diso_contig=norm)
    for i in range(viola.shape[0]):
        s = 0
        for j in range(viola.shape[1]):
            s = s + viola[i, j]
        check(close(r[i] * norm, coeff * s, 1e-9), 'penalty value')
    z = penalty_contig(viola.shape[0], viola, contig=False, coeff_contig=coeff)
    check(z.size == viola.shape[0], 'one penalty per lay-up')
    for i in range(viola.shape[0]):
        check(z[i] == 0, 'inactive penalty')
    return r


def p_incremental(angles, drops, n, sym, mid):
    """the violation counts accumulated ply by ply add up to the count of the
    complete laminate.  drops[p, l]: panel p drops the ply of level l."""
    c = cons(sym=sym, contig=True, n_contig=n)
    L = angles.size
    P = drops.shape[0]
    pdl = np.zeros((P, L), int)
    for p in range(P):
        for l in range(L):
            pdl[p, l] = -1 if drops[p, l] else l
    viola = np.zeros((P,), int)
    bot = [np.array((), int) for _ in range(P)]
    top = [np.array((), int) for _ in range(P)]
    for l in range(L):
        child = np.array([angles[l]])
        last = l == L - 1
        viola = calc_n_viola_contig(viola, bot, child, P, c, l, L, pdl,
                                    mother_ss_top=top, last_level=last,
                                    has_middle_ply=mid)
        for p in range(P):
            if pdl[p, l] >= 0:
                if sym or l % 2 == 0:
                    bot[p] = np.hstack((bot[p], child))
                else:
                    top[p] = np.hstack((child, top[p]))
    for p in range(P):
        if sym:
            if mid and pdl[p, L - 1] >= 0:
                full = np.hstack((bot[p], np.flip(bot[p][:-1], axis=0)))
            else:
                full = np.hstack((bot[p], np.flip(bot[p], axis=0)))
        else:
            full = np.hstack((bot[p], top[p]))
        check(viola[p] == count_windows(full, n), 'accumulated count of panel')
    return viola
