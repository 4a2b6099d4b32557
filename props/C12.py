import numpy as np
from vh import check, assume, raises, close
from hlib import cons
from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.BELLA.format_pdl import (convert_ss_to_sst, convert_sst_to_ss, convert_ss_guide_to_sst,
                                  convert_ss_ref_to_reduced_sst, extend_after_guide_based_blending,
                                  reduce_for_guide_based_blending, pos_in_ss_ref_to_pos_in_sst,
                                  pos_in_sst_to_pos_in_panel, pos_in_sst_to_pos_in_panel_2)


def layout(drop, n_panels):
    t = np.zeros((n_panels, drop.size), int)
    for i in range(n_panels):
        for k in range(drop.size):
            t[i, k] = -1 if i < drop[k] else k
    return t


def p_table(guide, drop, n_panels, sym):
    n = guide.size
    if sym:
        for k in range(n):
            assume(guide[k] == guide[n - 1 - k] and drop[k] == drop[n - 1 - k])
    pdl = layout(drop, n_panels)
    pdl0, guide0 = np.copy(pdl), np.copy(guide)
    sst = convert_ss_guide_to_sst(guide, pdl)
    check(sst.shape == (n_panels, n), 'shape of the table')
    for i in range(n_panels):
        for k in range(n):
            check(sst[i, k] == (-1 if i < drop[k] else guide[k]), 'entry of the table')
            if sym:
                check(sst[i, k] == sst[i, n - 1 - k], 'symmetry of a row')
    ss = convert_sst_to_ss(sst)
    check(len(ss) == n_panels, 'number of lay-ups')
    for i in range(n_panels):
        pos, num = 0, 0
        for k in range(n):
            if not i < drop[k]:
                num = num + 1
        check(ss[i].size == num, 'ply count of a lay-up')
        for k in range(n):
            if not i < drop[k]:
                check(ss[i][pos] == guide[k], 'ply of a lay-up')
                pos = pos + 1
    again = convert_ss_to_sst(ss, pdl)
    check((again == sst).all(), 'table rebuilt from the lay-ups')
    check((pdl == pdl0).all() and (guide == guide0).all(), 'inputs modified')
    return sst


def p_ref(guide, drop, n_panels, ref, new):
    n = guide.size
    pdl = layout(drop, n_panels)
    num = 0
    for k in range(n):
        if not ref < drop[k]:
            num = num + 1
    assume(num > 0)
    ss = [guide] * (n_panels - 1) + [guide]
    sst = convert_ss_ref_to_reduced_sst(new, ref, pdl, ss)
    pos = 0
    for k in range(n):
        here = not ref < drop[k]
        for i in range(n_panels):
            if i < drop[k]:
                check(sst[i, k] == -1, 'dropped ply')
            elif here:
                check(sst[i, k] == new[pos], 'ply of the reference panel')
            else:
                check(sst[i, k] == guide[k], 'ply the reference panel does not have')
        if here:
            pos = pos + 1
    return sst


def p_positions(pdl_ref, pdl_panel, pos):
    n, k = pdl_ref.size, pos.size
    rank_ref, rank_panel = [], []
    a, b = 0, 0
    for i in range(n):
        if pdl_ref[i] != -1:
            a = a + 1
        if pdl_panel[i] != -1:
            b = b + 1
        rank_ref.append(a)
        rank_panel.append(b)
    incr = True
    for i in range(k):
        for j in range(i):
            assume(pos[i] != pos[j])
            incr = incr and pos[j] < pos[i]
    pos0 = np.copy(pos)
    # positions in the table -> positions in a panel
    q = pos_in_sst_to_pos_in_panel_2(pos, pdl_panel)
    check(len(q) == k, 'number of positions')
    for i in range(k):
        e = 1e10
        for j in range(n):
            if pos[i] == j + 1 and pdl_panel[j] != -1:
                e = rank_panel[j]
        check(q[i] == e, 'position in a panel')
    if incr:
        q = pos_in_sst_to_pos_in_panel(pos, pdl_panel)
        c = 0
        for i in range(k):
            for j in range(n):
                if pos[i] == j + 1 and pdl_panel[j] != -1:
                    check(c < len(q), 'position missing')
                    check(q[c] == rank_panel[j], 'position in a panel')
                    c = c + 1
        check(len(q) == c, 'number of positions kept')
    # positions in the reference lay-up -> positions in the table
    for i in range(k):
        assume(pos[i] <= a)
    q = pos_in_ss_ref_to_pos_in_sst(pos, pdl_ref)
    check(len(q) == k, 'number of positions')
    for i in range(k):
        for j in range(n):
            if pdl_ref[j] != -1 and rank_ref[j] == pos[i]:
                check(q[i] == j + 1, 'position in the table')
    check((pos == pos0).all(), 'positions modified')
    return 0


def p_extend(plies, vals, kind):
    c = cons('BELLA', sym=False)
    n = len(plies)
    panels = []
    for i in range(n):
        panels.append(Panel(ID=i + 1, constraints=c, n_plies=int(plies[i]),
                            neighbour_panels=[i + 2] if i + 1 < n else []))
    mp = MultiPanel(panels)
    mp.from_mp_to_blending_strip(c)
    m = mp.reduced.n_panels
    if kind == 0:
        reduced = [vals[i] for i in range(m)]
    elif kind == 1:
        reduced = vals[:m]
    else:
        reduced = np.array([[vals[i], 10 + vals[i]] for i in range(m)])
    full = extend_after_guide_based_blending(mp, reduced)
    check(len(full) == n, 'number of panels')
    for i in range(n):
        for j in range(m):
            if mp.reduced.n_plies_in_panels[j] == plies[i]:
                if kind == 2:
                    check(full[i][0] == vals[j] and full[i][1] == 10 + vals[j], 'design of a panel')
                else:
                    check(full[i] == vals[j], 'design of a panel')
    check(isinstance(full, list) == (kind == 0), 'kind of data')
    back = reduce_for_guide_based_blending(mp, full)
    check(len(back) == m, 'number of reduced panels')
    for j in range(m):
        if kind == 2:
            check(back[j][0] == vals[j] and back[j][1] == 10 + vals[j], 'reduced design')
        else:
            check(back[j] == vals[j], 'reduced design')
    return 0
