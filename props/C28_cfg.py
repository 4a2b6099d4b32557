from symex.spec import *

ASSUMPTIONS = ['the list giving the order holds no item twice', 'weights of the subset-sum helpers are positive, strictly increasing for the one-at-a-time form']
NOT_COVERED = ['lists and weight sets longer than the bound']
W = (1, 2, 3, 5, 7)
X = (-3.0, 0.0, 0.5, 2.0, 7.5)


def configs(tier):
    r = []
    th = tier == 'thorough'
    for m in (0, 1, 2, 3, 4) + ((5, 6) if th else ()):
        for n in (0, 1, 3) if m < 5 else (2,):
            for arr in (True, False):
                r.append(dict(name='sort %d items by %d, arrays %s' % (m, n, arr), fn='p_sort',
                              inputs=dict(items=ArrOf(m, (0, 1, 2, 3, 4)), order=ArrOf(n, (0, 1, 2, 3, 5)), as_array=arr)))
    for a, b in ((1, 1), (1, 4), (4, 1), (4, 4), (2, 2)) + (((8, 8),) if th else ()):
        r.append(dict(name='maximum of arrays of %d and %d' % (a, b), fn='p_max',
                      inputs=dict(a=ArrOf(a, X, float), b=ArrOf(b, X, float))))
        r.append(dict(name='maximum of integer arrays of %d and %d' % (a, b), fn='p_max',
                      inputs=dict(a=ArrOf(a, (-2, 0, 3, 4)), b=ArrOf(b, (-2, 0, 3, 4)))))
    for n in (1, 3):
        r.append(dict(name='maximum of a number and %d values' % n, fn='p_max_scalar',
                      inputs=dict(x=OneOf((-1.0, 2, 0, 3.5)), b=ArrOf(n, X, float))))
    for a, b in ((2, 3), (3, 2), (5, 2), (4, 3)):
        r.append(dict(name='arrays of different lengths %d %d' % (a, b), fn='p_max_error',
                      inputs=dict(a=ArrOf(a, X[:2], float), b=ArrOf(b, X[:2], float))))
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        r.append(dict(name='count and find among %d weights' % n, fn='p_count',
                      inputs=dict(w=ArrOf(n, W), t=OneOf(range(0, 12)))))
        r.append(dict(name='table of %d weights' % n, fn='p_table',
                      inputs=dict(w=ArrOf(n, W if n < 4 else (1, 3, 4)), t=OneOf(range(7, 12) if n < 4 else (7, 8, 10)))))
        r.append(dict(name='list selections of %d weights' % n, fn='p_next',
                      inputs=dict(w=ArrOf(n, W if n < 4 else W[:4]), t=OneOf(range(0, 12) if n < 4 else (0, 3, 5, 6)))))
        r.append(dict(name='next selection of %d' % n, fn='p_subset_next',
                      inputs=dict(bits=ArrOf(n, (False, True), bool), rank=OneOf((0, 3, 6)))))
    return r
