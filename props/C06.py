"""10% rule on lamination parameters"""
import numpy as np
from vh import check, assume, raises, close
from src.BELLA.constraints import Constraints
from src.guidelines.ten_percent_rule import is_ten_percent_rule, calc_penalty_10_ss
from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla, calc_distance_2_points


def rule(percent):
    return Constraints(rule_10_percent=True, rule_10_Abdalla=True, percent_Abdalla=percent)


def sides(q, x, y):
    """both sides of the region, positive inside"""
    return q * q + q * y - 2 * x * x, q - y


def p_region(percent, x, y):
    c = rule(percent)
    q = 1 - percent / 25
    m1, m2 = sides(q, x, y)
    ok = is_ten_percent_rule(c, LPs=np.array([x, y, 0.5, 0]))
    if m1 > 1e-9 and m2 > 1e-9:
        check(ok, 'laminate of the region rejected')
    if m1 < -1e-9 or m2 < -1e-9:
        check(not ok, 'laminate outside the region accepted')
    return 0


def p_inside(percent, x, y, form):
    c = rule(percent)
    q = 1 - percent / 25
    m1, m2 = sides(q, x, y)
    assume(m1 > 1e-9 and m2 > 1e-9)
    LPs = np.array([x, y, 0.5, 0])
    if form == 'list':
        r = calc_penalty_10_ss(None, c, LPs=[LPs, LPs], mp=True)
        check(r.size == 2 and r[0] == 0 and r[1] == 0, 'penalty in the region')
    else:
        check(calc_penalty_10_ss(None, c, LPs=LPs) == 0, 'penalty in the region')
        check(calc_distance_Abdalla(LPs, c) == 0, 'distance in the region')
    return 0


def p_symmetry(percent, x, y):
    """the region does not tell +x from -x"""
    c = rule(percent)
    check(is_ten_percent_rule(c, LPs=np.array([x, y])) == is_ten_percent_rule(c, LPs=np.array([-x, y])), 'mirrored laminate')
    return 0


def p_distance(percent, x, y, num):
    c = rule(percent)
    q = 1 - percent / 25
    m1, m2 = sides(q, x, y)
    assume(m1 < -1e-9 or m2 < -1e-9)
    d = calc_distance_Abdalla(np.array([x, y]), c, num=num)
    check(d > 0, 'no penalty outside the region')
    # every half-plane containing the region bounds the distance from below
    check(d >= y - q - 1e-9, 'penalty smaller than the distance to the region')
    n = 8
    h = 2 * q / (num - 1)
    for k in range(-n, n + 1):
        t = k * q / n
        s = 4 * t / q
        v = s * x - y - 2 * t * t / q - q
        check(d >= v / np.sqrt(1 + s * s) - 1e-9, 'penalty smaller than the distance to the region')
        # every point of the boundary bounds it from above, within half the
        # distance between two points of the sampled boundary
        e = np.sqrt((x - t) ** 2 + (y - 2 * t * t / q + q) ** 2)
        check(d <= e + h / 2 * np.sqrt(17) + 1e-9, 'penalty larger than the distance to the region')
        e = np.sqrt((x - t) ** 2 + (y - q) ** 2)
        check(d <= e + h / 2 + 1e-9, 'penalty larger than the distance to the region')
    return 0


def p_points(a, b, x, y):
    d = calc_distance_2_points(np.array([a, b]), np.array([x, y]))
    check(d >= 0, 'distance of two points negative')
    check(close(d * d, (a - x) ** 2 + (b - y) ** 2), 'distance of two points')
    return 0


def p_off(x, y, ten, abd):
    """the rule on lamination parameters is inactive"""
    c = Constraints(rule_10_percent=ten, rule_10_Abdalla=abd, percent_Abdalla=10, percent_0=0)
    if ten and abd:
        return 0
    LPs = np.array([x, y])
    check(is_ten_percent_rule(c, stack=np.array([45, 45]), LPs=LPs), 'inactive rule rejects')
    check(calc_penalty_10_ss(np.array([45, 45]), c, LPs=LPs) == 0, 'penalty of an inactive rule')
    return 0
