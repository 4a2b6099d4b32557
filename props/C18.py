import numpy as np
from vh import check, assume, raises, close
from hlib import cons
from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.BELLA.obj_function import ObjFunction


def p_structure(side, order, bw, edges, ids):
    """side: which panel of a boundary names the other one (0: the first, 1:
    the second, 2: both); order: how the weight of the boundary is keyed"""
    c = cons('BELLA', sym=True)
    n = len(ids)
    nb = [[] for _ in range(n)]
    d = dict()
    for k, (a, b) in enumerate(edges):
        if side[k] != 1:
            nb[a].append(ids[b])
        if side[k] != 0:
            nb[b].append(ids[a])
        if order[k] == 0:
            d[(ids[a], ids[b])] = float(bw[k])
        else:
            d[(ids[b], ids[a])] = float(bw[k])
    panels = [Panel(ID=ids[i], constraints=c, n_plies=8, neighbour_panels=nb[i]) for i in range(n)]
    for weighted in (True, False):
        mp = MultiPanel(panels, boundary_weights=d) if weighted else MultiPanel(panels)
        check(mp.n_panels == n and len(mp.panels) == n, 'number of panels')
        for i in range(n):
            check(mp.dict_ID_to_indices[ids[i]] == i, 'identifier table')
        check(mp.boundaries.shape == (len(edges), 2), 'number of boundaries')
        got = [(int(x), int(y)) for x, y in mp.boundaries]
        gid = [(int(x), int(y)) for x, y in mp.boundaries_in_IDs]
        check(len(mp.boundary_weights) == len(edges), 'number of boundary weights')
        for k, (a, b) in enumerate(edges):
            lo, hi = min(a, b), max(a, b)
            check((lo, hi) in got, 'boundary missing')
            check(gid[got.index((lo, hi))] == (ids[lo], ids[hi]), 'boundary in identifiers')
            w = bw[k] if weighted else 1
            check(close(mp.boundary_weights[(lo, hi)], w), 'boundary weight')
            x = (ids[a], ids[b]) if (ids[a], ids[b]) in mp.boundary_weights_in_IDs else (ids[b], ids[a])
            check(close(mp.boundary_weights_in_IDs[x], w), 'boundary weight in identifiers')
        nei = mp.identify_neighbour_panels()
        check(len(nei) == n, 'neighbour lists')
        for i in range(n):
            cnt = 0
            for a, b in edges:
                if a == i or b == i:
                    cnt += 1
                    check((b if a == i else a) in nei[i], 'neighbour missing')
            check(len(nei[i]) == cnt, 'number of neighbours')
    return got


def p_totals(plies, area, sym, edges, sst):
    c = cons('BELLA', sym=sym)
    n = len(plies)
    panels = []
    for i in range(n):
        panels.append(Panel(ID=i + 1, constraints=c, n_plies=int(plies[i]), area=float(area[i]),
                            neighbour_panels=[b + 1 for a, b in edges if a == i]))
    mp = MultiPanel(panels)
    tot, tot2, lo, hi, odd, w = 0.0, 0.0, plies[0], plies[0], False, 0.0
    for i in range(n):
        tot = tot + area[i]
        tot2 = tot2 + area[i] * plies[i]
        lo = min(lo, plies[i])
        hi = max(hi, plies[i])
        odd = odd or plies[i] % 2 == 1
    check(close(mp.area, tot), 'area')
    check(close(mp.area_patches, tot2), 'area of the plies')
    check(close(mp.calc_weight(2.0), 2 * tot2), 'weight')
    mp.calc_weight_per_panel(2.0)
    check(mp.n_plies_min == lo and mp.n_plies_max == hi, 'extreme ply counts')
    check(plies[mp.ind_thick] == hi, 'thickest panel')
    thick = mp.identify_thickest_panels()
    thick_sym = mp.identify_thickest_panels(sym=True)
    for i in range(n):
        check(mp.n_plies_in_panels[i] == plies[i], 'ply counts')
        check(mp.is_thick_panels[i] == (plies[i] == hi), 'thickest panels')
        check((i in thick) == (plies[i] == hi), 'list of thickest panels')
        check((i in thick_sym) == (plies[i] == hi or (hi % 2 == 1 and plies[i] == hi - 1)),
              'thickest panels but for the middle ply')
        check(mp.middle_ply_indices[i] == ((plies[i] + 1) // 2 if sym and plies[i] % 2 == 1 else 0), 'middle ply')
        check(panels[i].has_middle_ply == (sym and plies[i] % 2 == 1), 'panel with a middle ply')
        check(close(mp.weight_ref_per_panel[i], 2 * area[i] * plies[i]), 'panel weights')
        check(close(panels[i].calc_weight(2.0), 2 * area[i] * plies[i]), 'panel weight')
        k = 0
        for j in range(4):
            if sst[i, j] != -1:
                k = k + 1
        w = w + 2 * area[i] * k
    check(mp.has_middle_ply == (sym and odd), 'middle ply of the structure')
    check(mp.thick_panel_has_middle_ply == (sym and hi % 2 == 1), 'middle ply of the thickest panel')
    check(close(mp.calc_weight_from_sst(sst, 2.0), w), 'weight of a table')
    return mp.ind_thick


def p_reject(links, ids, unknown):
    c = cons('BELLA', sym=True)
    n = len(ids)
    nb = [[] for _ in range(n)]
    reach = [[False] * n for _ in range(n)]
    for i in range(n):
        reach[i][i] = True
        for j in range(n):
            if j == i:
                continue
            if links[i, j]:
                nb[i].append(ids[j])
                reach[i][j] = True
                reach[j][i] = True
    for k in range(n):
        for i in range(n):
            for j in range(n):
                reach[i][j] = reach[i][j] or (reach[i][k] and reach[k][j])
    connected, distinct = True, True
    for i in range(n):
        connected = connected and reach[0][i]
        for j in range(i):
            distinct = distinct and ids[i] != ids[j]
    if unknown:
        nb[0].append(99)
    panels = [Panel(ID=ids[i], constraints=c, n_plies=8, neighbour_panels=nb[i]) for i in range(n)]
    e = raises(MultiPanel, panels)
    check((e == '') == (connected and distinct and not unknown), 'structure accepted or rejected')
    check(raises(MultiPanel, []) != '', 'structure without panels accepted')
    check(raises(MultiPanel, tuple(panels)) != '', 'panels not in a list accepted')
    return e


def p_reject_weights(given, extra, bw, order, edges, n):
    c = cons('BELLA', sym=True)
    panels = []
    for i in range(n):
        panels.append(Panel(ID=i + 1, constraints=c, n_plies=8,
                            neighbour_panels=[b + 1 for a, b in edges if a == i]))
    d = dict()
    ok = True
    for k, (a, b) in enumerate(edges):
        if given[k]:
            if order[k] == 0:
                d[(a + 1, b + 1)] = float(bw[k])
            else:
                d[(b + 1, a + 1)] = float(bw[k])
        ok = ok and given[k] and bw[k] >= 0
    if extra:
        d[(77, 88)] = 1.0
    check((raises(MultiPanel, panels, d) == '') == ok, 'boundary weights accepted or rejected')
    return len(d)


def p_panel(n_plies, sym, area, length_x, length_y, weighting):
    c = cons('BELLA', sym=sym)
    ok = n_plies >= 1
    for v in (area, length_x, length_y, weighting):
        ok = ok and isinstance(v, (int, float)) and v >= 0
    e = raises(Panel, 1, c, n_plies, area=area, length_x=length_x, length_y=length_y, weighting=weighting)
    check((e == '') == ok, 'panel accepted or rejected')
    assume(ok)
    p = Panel(1, c, n_plies, area=area, length_x=length_x, length_y=length_y, weighting=weighting)
    check(p.n_plies == n_plies and p.weighting == weighting, 'panel data')
    if length_x > 0 and length_y > 0:
        check(close(p.area, length_x * length_y), 'area from the lengths')
    else:
        check(p.area == area, 'area')
    check(p.middle_ply_index == ((n_plies + 1) // 2 if sym and n_plies % 2 == 1 else 0), 'middle ply')
    return p.area


def p_ply_count(n_plies):
    c = cons('BELLA', sym=True)
    e = raises(Panel, 1, c, n_plies)
    check((e == '') == (isinstance(n_plies, int) and n_plies >= 1), 'ply count accepted or rejected')
    return e


def p_lampam_w(w, kind):
    c = cons('BELLA', sym=True)
    ok = w.size == 12 and kind == 'array'
    for x in w:
        ok = ok and x >= 0
    v = w if kind == 'array' else ([float(x) for x in w] if kind == 'list' else w.astype(int))
    e = raises(Panel, 1, c, 8, lampam_weightings=v)
    check((e == '') == ok, 'weightings accepted or rejected')
    return e


def p_filter(w, target, on, coeff, angles):
    c = cons('BELLA', sym=True, set_of_angles=angles)
    c.sym, c.bal, c.oopo = bool(on[0]), bool(on[1]), bool(on[2])
    f = ObjFunction(c, coeff_oopo=coeff)
    before = np.copy(w)
    p = Panel(1, c, 8, lampam_weightings=w, lampam_target=np.copy(target))
    std = len(angles) == 4
    exp = [0.0] * 12
    k, s = 0, 0.0
    for i in range(12):
        zero = (on[0] and 4 <= i and i < 8) or (std and i in (3, 7, 11)) \
            or (on[1] and i in (2, 3)) or (on[2] and i in (10, 11))
        if not zero:
            exp[i] = w[i]
        if exp[i] > 0:
            k = k + 1
        s = s + exp[i]
    assume(k > 0)
    if on[2]:
        exp[10] = s / k * coeff
        if not std:
            exp[11] = s / k * coeff
    p.filter_lampam_weightings(c, f)
    tot = 0.0
    for i in range(12):
        tot = tot + exp[i]
    one = 0.0
    for i in range(12):
        check(close(p.lampam_weightings[i] * tot, exp[i]), 'filtered weighting')
        one = one + p.lampam_weightings[i]
    check(close(one, 1), 'weightings do not add up to one')
    for i in range(4):
        check(p.lampam_weightingsA[i] == p.lampam_weightings[i]
              and p.lampam_weightingsD[i] == p.lampam_weightings[8 + i], 'in-plane and out-of-plane weightings')
    check((w == before).all(), 'weightings given are modified')
    p.filter_target_lampams(c, f)
    for i in range(12):
        zero = (on[0] and 4 <= i and i < 8) or (on[1] and i in (2, 3)) or (on[2] and i in (10, 11))
        check(p.lampam_target[i] == (0 if zero else target[i]), 'filtered target')
    return 0
