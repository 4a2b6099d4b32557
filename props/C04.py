import numpy as np
from vh import check, raises
from hlib import cons
from src.guidelines.dam_tol import is_dam_tol


def is45(a):
    return a == 45 or a == -45


def want(stack, rule, sym):
    if rule == 0:
        return True
    if rule == 1:
        return is45(stack[0]) and (sym or is45(stack[-1]))
    if rule == 2:
        bot = is45(stack[0]) and is45(stack[1]) and stack[0] == -stack[1]
        top = is45(stack[-1]) and is45(stack[-2]) and stack[-1] == -stack[-2]
    else:
        bot = is45(stack[0]) and is45(stack[1])
        top = is45(stack[-1]) and is45(stack[-2])
    return bot and (sym or top)


class Settings:
    """settings giving the number of plies fixed for damage tolerance instead of a rule"""
    def __init__(self, sym, n_plies):
        self.sym = sym
        self.dam_tol = n_plies > 0
        self.n_plies_dam_tol = n_plies


def mk(kind, rule, sym):
    if kind == 'plies':
        return Settings(sym, rule)
    if rule == 0:
        return cons(kind, sym=sym)
    return cons(kind, sym=sym, dam_tol=True, dam_tol_rule=rule)


def p_any(stack, rule, kind, sym):
    """lay-ups examined at both surfaces; a symmetric laminate's lay-up is
    symmetric, so that its second surface repeats the first"""
    c = mk(kind, rule, sym)
    before = np.copy(stack)
    r = is_dam_tol(stack, c)
    check(bool(r) == want(stack, rule, False), 'verdict')
    check((stack == before).all(), 'lay-up modified')
    return bool(r)


def p_sym(half, mid, rule, kind):
    """symmetric lay-ups: only one surface matters"""
    c = mk(kind, rule, True)
    if mid.size > 0:
        stack = np.hstack((half, mid, np.flip(half, axis=0)))
    else:
        stack = np.hstack((half, np.flip(half, axis=0)))
    r = is_dam_tol(stack, c)
    check(bool(r) == want(stack, rule, True), 'verdict')
    return bool(r)
