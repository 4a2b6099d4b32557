import numpy as np
from vh import check, assume, raises, close
from hlib import cons
from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.BELLA.reduced_multipanels import ReducedMultiPanel


def structure(plies, weights, bw, edges, sym):
    c = cons('BELLA', sym=sym)
    panels = []
    n = len(plies)
    for i in range(n):
        nb = []
        for a, b in edges:
            if a == i:
                nb.append(b + 1)
        panels.append(Panel(ID=i + 1, constraints=c, n_plies=int(plies[i]), weighting=float(weights[i]),
                            neighbour_panels=nb, area=1))
    if bw is None:
        return c, MultiPanel(panels)
    d = dict()
    for k, (a, b) in enumerate(edges):
        d[(a + 1, b + 1)] = float(bw[k])
    return c, MultiPanel(panels, boundary_weights=d)


def blendable(plies, sym):
    """a symmetric structure has no middle ply to drop: thicker panels than
    one with a middle ply have one too"""
    if not sym:
        return True
    for p in plies:
        if p % 2 == 1:
            for q in plies:
                if q > p and q % 2 == 0:
                    return False
    return True


def p_reduce(plies, weights, bw, edges, sym):
    n = len(plies)
    c, mp = structure(plies, weights, bw, edges, sym)
    ok = blendable(plies, sym)
    e = raises(mp.from_mp_to_blending_strip, c)
    check((e == '') == ok, 'structure accepted or rejected')
    assume(ok)
    r = mp.reduced
    m = r.n_panels
    # one panel per distinct ply count, in increasing order
    check(len(r.n_plies_in_panels) == m and len(r.panels) == m and len(r.ind_for_reduc) == m, 'sizes')
    for k in range(m - 1):
        check(r.n_plies_in_panels[k] < r.n_plies_in_panels[k + 1], 'increasing ply counts')
    for k in range(m):
        found = False
        for p in plies:
            found = found or p == r.n_plies_in_panels[k]
        check(found, 'reduced ply count not in the structure')
        check(r.panels[k].n_plies == r.n_plies_in_panels[k], 'reduced panel')
        check(mp.panels[r.ind_for_reduc[k]].n_plies == r.n_plies_in_panels[k], 'index of a reduced panel')
        check(r.middle_ply_indices[k] == ((r.n_plies_in_panels[k] + 1) // 2
                                          if sym and r.n_plies_in_panels[k] % 2 == 1 else 0), 'middle ply')
    check(len(r.ind_panels_guide) == n, 'mapping size')
    for i in range(n):
        check(r.n_plies_in_panels[r.ind_panels_guide[i]] == plies[i], 'mapping of a panel')
    check(r.ind_thick == m - 1, 'thickest panel')
    # weightings of merged panels are added
    for k in range(m):
        tot = 0.0
        for i in range(n):
            if plies[i] == r.n_plies_in_panels[k]:
                tot = tot + weights[i]
        check(close(r.actual_panel_weightings[k], tot), 'weighting of a reduced panel')
        check(close(r.panel_weightings_ini[k], tot), 'initial weighting of a reduced panel')
    # boundaries of merged panels
    got = [(int(a), int(b)) for a, b in r.boundaries]
    check(len(got) == len(r.boundary_weights), 'one weight per boundary')
    for a in range(m):
        for b in range(a + 1, m):
            tot, exists = 0.0, False
            for k, (i, j) in enumerate(edges):
                ia, ib = r.n_plies_in_panels[a], r.n_plies_in_panels[b]
                if (plies[i] == ia and plies[j] == ib) or (plies[i] == ib and plies[j] == ia):
                    tot = tot + bw[k]
                    exists = True
            check(((a, b) in got) == exists, 'boundary')
            check(close(r.boundary_weights.get((a, b), 0.0), tot), 'boundary weight')
    for g in got:
        check(g[0] < g[1], 'boundary order')
    check(len(set(got)) == len(got), 'boundary listed twice')
    return got


def p_steps(plies, ref, weights, edges, sym):
    c, mp = structure(plies, weights, None, edges, sym)
    assume(blendable(plies, sym))
    mp.from_mp_to_blending_strip(c, n_plies_ref_panel=ref)
    r = mp.reduced
    m = r.n_panels
    q = [int(p) for p in r.n_plies_in_panels]
    expected = m - 1
    for k in range(m - 1, -1, -1):
        if q[k] >= ref:
            expected = k
    check(r.ind_ref == expected, 'reference panel')
    check(r.n_plies_ref_panel == q[expected], 'ply count of the reference panel')
    check(r.n_panels_thin == expected + 1 and r.n_panels_thick == m - expected, 'number of thinner and thicker panels')
    # panel weightings used while the panels are designed one by one: they
    # add up to one, the weights of panels already left (thinner side: thicker
    # panels come first; thicker side: thicker panels not yet reached) being
    # merged into the panel at hand
    w = [0.0] * m
    for k in range(m):
        for i in range(len(plies)):
            if plies[i] == q[k]:
                w[k] = w[k] + weights[i]
    for k in range(m):
        g = r.panel_weightings[k]
        if k < expected:
            tot = sum(w[:expected])
            check(len(g) == expected - k, 'number of weightings')
            check(close(g[0] * tot, sum(w[:k + 1])), 'merged weighting')
            for j in range(1, len(g)):
                check(close(g[j] * tot, w[k + j]), 'weighting')
        elif k > expected:
            tot = sum(w[expected + 1:])
            check(len(g) == k - expected, 'number of weightings')
            check(close(g[len(g) - 1] * tot, sum(w[k:])), 'merged weighting')
            for j in range(len(g) - 1):
                check(close(g[j] * tot, w[expected + 1 + j]), 'weighting')
        else:
            check(len(g) == 0, 'weightings of the reference panel')
    # step tables
    par = True
    if sym:
        for p in plies:
            par = par and (p - plies[0]) % 2 == 0
    assume(par)
    d = 2 if sym else 1
    n_thin = (q[expected] - q[0]) // d
    n_thick = (q[m - 1] - q[expected]) // d
    check(r.n_steps_thin == n_thin and r.n_steps_thick == n_thick, 'number of steps')
    if n_thin == 0:
        check(r.ind_panel_thin_tab is None and r.n_plies_after_thin_tab is None
              and r.n_plies_before_thin_tab is None and r.new_boundary_thin_tab is None
              and r.n_panels_designed_thin_tab is None, 'tables of no step')
    if n_thick == 0:
        check(r.ind_panel_thick_tab is None and r.n_plies_after_thick_tab is None
              and r.n_plies_before_thick_tab is None and r.new_boundary_thick_tab is None
              and r.n_panels_designed_thick_tab is None, 'tables of no step')
    k, size, first, done = expected - 1, q[expected], True, 0
    for s in range(n_thin):
        check(r.n_plies_before_thin_tab[s] == size, 'plies before a drop')
        size = size - d
        check(r.n_plies_after_thin_tab[s] == size, 'plies after a drop')
        check(r.ind_panel_thin_tab[s] == k, 'panel of a drop')
        check(bool(r.new_boundary_thin_tab[s]) == first, 'first drop of a panel')
        check(r.n_panels_designed_thin_tab[s] == done, 'panels designed')
        first = False
        if size == q[k]:
            k, first, done = k - 1, True, done + 1
    k, size, first, done = expected + 1, q[expected], True, 0
    for s in range(n_thick):
        check(r.n_plies_before_thick_tab[s] == size, 'plies before an addition')
        size = size + d
        check(r.n_plies_after_thick_tab[s] == size, 'plies after an addition')
        check(r.ind_panel_thick_tab[s] == k, 'panel of an addition')
        check(bool(r.new_boundary_thick_tab[s]) == first, 'first addition of a panel')
        check(r.n_panels_designed_thick_tab[s] == done, 'panels designed')
        first = False
        if size == q[k]:
            k, first, done = k + 1, True, done + 1
    return r.ind_ref
