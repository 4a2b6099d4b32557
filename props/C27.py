"""Repair of multi-panel structures"""
import numpy as np
from vh import check, assume, raises, close
from hlib import cons, count, strip_outer, bad_pairs, contig_ok, dam_tol_ok, balanced, required, ten_ok, mk10, lay_up
from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.BELLA.format_pdl import convert_sst_to_ss
from src.CLA.lampam_functions import calc_lampam
from src.guidelines.one_stack import check_lay_up_rules
from src.RELAY.thick_to_thin import repair_thick_to_thin
from src.RELAY.thin_to_thick import repair_thin_to_thick
from src.RELAY.repair_reference_panel import repair_reference_panel
from src.RELAY.repair_mp import repair_mp


class Par:
    def __init__(self, local, glob, p_A=100, n_D1=2, n_D2=2, n_D3=1, membrane=False, flexural=False):
        self.local_node_limit2 = local
        self.global_node_limit2 = glob
        self.p_A = p_A
        self.n_D1 = n_D1
        self.n_D2 = n_D2
        self.n_D3 = n_D3
        self.repair_membrane_switch = membrane
        self.repair_flexural_switch = flexural


def objective(lampam, target, coeffs):
    r = 0
    for i in range(12):
        d = lampam[i] - target[i]
        r = r + coeffs[i] * d * d
    return r


def structure(plies, ref, c, targets, coeffs):
    panels = []
    n = len(plies)
    for i in range(n):
        nb = []
        if i + 1 < n:
            nb.append(i + 2)
        panels.append(Panel(ID=i + 1, constraints=c, n_plies=plies[i], weighting=1.0 / n, neighbour_panels=nb,
                            lampam_target=np.array(targets[i]), area=1))
    mp = MultiPanel(panels)
    mp.from_mp_to_blending_strip(c, n_plies_ref_panel=ref)
    for p in mp.reduced.panels:
        p.lampam_weightings = np.array(coeffs)
        p.lampam_weightingsA = np.array(coeffs[0:4])
        p.lampam_weightingsD = np.array(coeffs[8:12])
    return mp


def settings(sym, P, bal, ten, rule, diso, n_contig, angles, covering, n_covering, spacing, min_drop):
    return mk10(P, bal, ten, sym, rule, angles, 'BELLA', diso=diso, delta_angle=45, contig=n_contig > 0,
                n_contig=n_contig if n_contig else 4, covering=covering, n_covering=n_covering,
                pdl_spacing=spacing, min_drop=min_drop)


def table(pdl, thick):
    return np.array([[int(thick[k]) if line[k] else -1 for k in range(thick.size)] for line in pdl])


def unbalance(s, angles):
    r = 0
    for a in angles:
        if 0 < a < 90:
            r = r + abs(count(s, a) - count(s, -a))
    return r


def blend_ok(sst, plies, sym, n_cov, ss, lampam, c, changed):
    m = len(plies)
    check(len(sst) == m and len(ss) == m and len(lampam) == m, 'number of panels')
    w = len(sst[m - 1])
    for i in range(m):
        row = sst[i]
        check(len(row) == w, 'width of the table')
        k = 0
        check(len(ss[i]) == plies[i], 'ply count')
        for j in range(w):
            if row[j] != -1:
                if k < len(ss[i]):
                    check(ss[i][k] == row[j], 'lay-up and table differ')
                k = k + 1
            if i + 1 < m:
                check(row[j] == -1 or row[j] == sst[i + 1][j], 'ply not continued in the thicker panel')
            if sym:
                check(row[j] == row[w - 1 - j], 'table not symmetric')
        check(k == plies[i], 'plies in the table')
        for j in range(n_cov):
            check(row[j] != -1 and row[w - 1 - j] != -1, 'covering ply dropped')
        if changed:
            l = calc_lampam(ss[i], c)
            for j in range(12):
                check(close(lampam[i][j], l[j]), 'lamination parameters and lay-up differ')


def rules_ok(s, ref, n_contig, ten, bal, P, angles, sym, text):
    if n_contig:
        check(contig_ok(s, n_contig), text + 'contiguity')
    if ten:
        check(ten_ok(s, required('BELLA', P)), text + '10% rule')
    if bal and balanced(ref, angles):
        check(unbalance(s, angles) <= (2 if sym else 1), text + 'balance')


def p_thin(plies, ref, pdl, fixed, rest, mid, sym, P, bal, ten, diso, n_contig, angles, covering, n_covering, spacing, min_drop, local, glob, targets, coeffs):
    c = settings(sym, P, bal, ten, 0, diso, n_contig, angles, covering, n_covering, spacing, min_drop)
    mp = structure(plies, ref, c, targets, coeffs)
    thick = lay_up(np.hstack((np.array(fixed, int), rest)), mid, sym)
    sst = table(pdl, thick)
    ss = convert_sst_to_ss(sst)
    lampam = calc_lampam(ss, c)
    r = mp.reduced.ind_ref
    before = [np.copy(s) for s in ss]
    row = np.copy(sst[r])
    ok, sst2, lampam2, ss2 = repair_thick_to_thin(lampam, sst, ss, mp, Par(local, glob), None, c)
    check(ok == True or ok == False, 'no verdict')
    for i in range(r if ok else 0, len(plies)):
        check((ss2[i] == before[i]).all(), 'lay-up of another panel changed')
    check((sst2[r] == row).all(), 'reference layout changed')
    if not ok:
        return 0
    n_cov = n_covering if covering else 0
    blend_ok(sst2, plies, sym, n_cov, ss2, lampam2, c, mp.reduced.n_steps_thin > 0)
    for i in range(r):
        rules_ok(ss2[i], before[r], n_contig, ten, bal, P, angles, sym, 'thinner panel: ')
    return 0


def p_thin_best(plies, pdl, fixed, rest, sym, P, ten, n_contig, angles, n_cov, targets, coeffs):
    """one ply (pair of plies) to drop, no limit to the search: no feasible
    position is better than the one chosen"""
    c = settings(sym, P, False, ten, 0, False, n_contig, angles, n_cov > 0, n_cov if n_cov else 1, False, 2)
    mp = structure(plies, plies[1], c, targets, coeffs)
    thick = lay_up(np.hstack((np.array(fixed, int), rest)), None, sym)
    sst = table(pdl, thick)
    ss = convert_sst_to_ss(sst)
    lampam = calc_lampam(ss, c)
    ok, sst2, lampam2, ss2 = repair_thick_to_thin(lampam, sst, ss, mp, Par(100, 100), None, c)
    n = thick.size
    best = objective(calc_lampam(ss2[0], c), targets[0], coeffs)
    for k in range(n_cov, n // 2 if sym else n - n_cov):
        if pdl[1][k]:
            cand = np.array([sst2[1][j] for j in range(n) if pdl[1][j] and j != k and (not sym or j != n - 1 - k)])
            good = True
            if n_contig:
                good = good and contig_ok(cand, n_contig)
            if ten:
                good = good and ten_ok(cand, required('BELLA', P))
            if good:
                check(ok, 'failure although a feasible layout exists')
                check(not ok or best <= objective(calc_lampam(cand, c), targets[0], coeffs) + 1e-9, 'a better layout exists')
    return 0


def p_thick(plies, ref, pdl, fixed, rest, mid, sym, P, bal, ten, diso, n_contig, angles, covering, n_covering, spacing, min_drop, local, glob, targets, coeffs):
    c = settings(sym, P, bal, ten, 0, diso, n_contig, angles, covering, n_covering, spacing, min_drop)
    mp = structure(plies, ref, c, targets, coeffs)
    thick = lay_up(np.hstack((np.array(fixed, int), rest)), mid, sym)
    sst = table(pdl, thick)
    ss = convert_sst_to_ss(sst)
    lampam = calc_lampam(ss, c)
    r = mp.reduced.ind_ref
    before = [np.copy(s) for s in ss]
    ok, sst2, lampam2, ss2 = repair_thin_to_thick(lampam, sst, ss, mp, Par(local, glob), None, c)
    check(ok == True or ok == False, 'no verdict')
    for i in range(r + 1 if ok else len(plies)):
        check((ss2[i] == before[i]).all(), 'lay-up of another panel changed')
    if not ok:
        return 0
    n_cov = n_covering if covering else 0
    blend_ok(sst2, plies, sym, n_cov, ss2, lampam2, c, mp.reduced.n_steps_thick > 0)
    for i in range(r + 1, len(plies)):
        rules_ok(ss2[i], before[r], n_contig, ten, bal, P, angles, sym, 'thicker panel: ')
        if diso:
            check(bad_pairs(ss2[i], 45) == 0, 'thicker panel: disorientation')
        for a in ss2[i]:
            check(int(a) in angles, 'fibre orientation')
    return 0


def p_thick_best(plies, pdl, fixed, rest, sym, P, ten, diso, n_contig, angles, n_cov, targets, coeffs):
    """one ply (pair of plies) to add, no limit to the search: no feasible
    position and orientation is better than the one chosen"""
    c = settings(sym, P, False, ten, 0, diso, n_contig, angles, n_cov > 0, n_cov if n_cov else 1, False, 2)
    mp = structure(plies, plies[0], c, targets, coeffs)
    thick = lay_up(np.hstack((np.array(fixed, int), rest)), None, sym)
    sst = table(pdl, thick)
    ss = convert_sst_to_ss(sst)
    lampam = calc_lampam(ss, c)
    s = np.copy(ss[0])
    ok, sst2, lampam2, ss2 = repair_thin_to_thick(lampam, sst, ss, mp, Par(100, 100), None, c)
    n = plies[0]
    best = objective(calc_lampam(ss2[1], c), targets[1], coeffs)
    for k in range(n_cov, n // 2 + 1 if sym else n - n_cov + 1):
        for a in angles:
            if sym:
                cand = np.hstack((s[:k], np.array([a]), s[k:n - k], np.array([a]), s[n - k:]))
            else:
                cand = np.hstack((s[:k], np.array([a]), s[k:]))
            good = True
            if diso:
                good = good and bad_pairs(cand, 45) == 0
            if n_contig:
                good = good and contig_ok(cand, n_contig)
            if ten:
                good = good and ten_ok(cand, required('BELLA', P))
            if good:
                check(ok, 'failure although a feasible layout exists')
                check(not ok or best <= objective(calc_lampam(cand, c), targets[1], coeffs) + 1e-9, 'a better layout exists')
    return 0


def p_ref(plies, ref, pdl, fixed, rest, mid, sym, P, bal, ten, rule, diso, n_contig, angles, par, targets, coeffs):
    c = settings(sym, P, bal, ten, rule, diso, n_contig, angles, False, 1, False, 2)
    mp = structure(plies, ref, c, targets, coeffs)
    thick = lay_up(np.hstack((np.array(fixed, int), rest)), mid, sym)
    if not dam_tol_ok(np.array([thick[j] for j in range(thick.size) if pdl[plies.index(ref)][j]]), rule):
        return 0
    sst = table(pdl, thick)
    ss = convert_sst_to_ss(sst)
    layout = np.array([[j if line[j] else -1 for j in range(thick.size)] for line in pdl])
    before = [np.copy(s) for s in ss]
    r = mp.reduced.ind_ref
    ok, lampam2, sst2, ss2 = repair_reference_panel(mp, ss, c, Par(10, 10, *par), None, layout)
    check(ok == True or ok == False, 'no verdict')
    for i in range(len(plies)):
        check((ss[i] == before[i]).all(), 'lay-ups passed in changed')
    if not ok:
        for i in range(len(plies)):
            check((ss2[i] == before[i]).all(), 'failure reported with other lay-ups')
        return 0
    blend_ok(sst2, plies, sym, 0, ss2, lampam2, c, True)
    for i in range(len(plies)):
        for j in range(thick.size):
            check((sst2[i][j] == -1) == (not pdl[i][j]), 'layout changed')
    t = ss2[r]
    good = dam_tol_ok(t, rule)
    if bal:
        good = good and balanced(t, angles)
    if ten:
        good = good and ten_ok(t, required('BELLA', P))
    u = strip_outer(t, rule)
    if diso:
        good = good and bad_pairs(u, 45) == 0
    if n_contig:
        good = good and contig_ok(u, n_contig)
    check(good, 'success reported for a reference lay-up breaking a rule')
    return 0


def p_mp(plies, ref, pdl, fixed, rest, mid, sym, P, bal, ten, diso, n_contig, angles, par, local, glob, targets, coeffs):
    c = settings(sym, P, bal, ten, 0, diso, n_contig, angles, False, 1, False, 2)
    mp = structure(plies, ref, c, targets, coeffs)
    thick = lay_up(np.hstack((np.array(fixed, int), rest)), mid, sym)
    sst = table(pdl, thick)
    ss = convert_sst_to_ss(sst)
    layout = np.array([[j if line[j] else -1 for j in range(thick.size)] for line in pdl])
    r = mp.reduced.ind_ref
    ok, ss2, sst2, pdl2, stage = repair_mp(mp, ss, c, Par(local, glob, *par), None, layout)
    check(stage in ((4,) if ok else (1, 2, 3)), 'stage of the verdict')
    if not ok:
        return stage
    blend_ok(sst2, plies, sym, 0, ss2, ss2, c, False)
    for i in range(len(plies)):
        for j in range(len(sst2[i])):
            check((sst2[i][j] == -1) == (pdl2[i][j] == -1), 'layout and table differ')
    t = ss2[r]
    if bal:
        check(balanced(t, angles), 'reference panel: balance')
    if diso:
        check(bad_pairs(t, 45) == 0, 'reference panel: disorientation')
    for i in range(len(plies)):
        rules_ok(ss2[i], t, n_contig, ten, bal, P, angles, sym, 'panel: ')
        if diso and i > r:
            check(bad_pairs(ss2[i], 45) == 0, 'thicker panel: disorientation')
    return stage
