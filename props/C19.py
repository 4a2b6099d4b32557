"""Material properties"""
import numpy as np
from vh import check, assume, raises, close
from src.BELLA.materials import Material as BMat
from src.LAYLA_V02.materials import Material as LMat


def cls(kind):
    return BMat if kind == 'BELLA' else LMat


def p_stiffness(kind, E11, E22, nu12, G12):
    """every set of valid constants (moduli in GPa, exact arithmetic)"""
    assume(nu12 * nu12 * E22 <= 0.95 * E11)
    m = cls(kind)(E11=E11, E22=E22, nu12=nu12, G12=G12)
    check(m.E11 == E11 and m.E22 == E22 and m.nu12 == nu12 and m.G12 == G12, 'constants stored')
    # reciprocity, and compliance times stiffness is the identity
    check(close(m.nu21 * E11, nu12 * E22), 'reciprocal Poisson ratios')
    check(close(m.Q11 * (1 - nu12 * m.nu21), E11), 'Q11')
    check(close(m.Q22 * (1 - nu12 * m.nu21), E22), 'Q22')
    check(close(m.Q12, nu12 * m.Q22), 'Q12')
    check(close(m.Q12 * E11, m.nu21 * m.Q11 * E11), 'Q12 from the other ratio')
    check(m.Q66 == G12, 'Q66')
    # the invariants give the stiffnesses back at 0 and 90 degrees
    check(close(m.U1 + m.U2 + m.U3, m.Q11), 'Q11 from the invariants')
    check(close(m.U1 - m.U2 + m.U3, m.Q22), 'Q22 from the invariants')
    check(close(m.U4 - m.U3, m.Q12), 'Q12 from the invariants')
    check(close(m.U5 - m.U3, m.Q66), 'Q66 from the invariants')
    check(close(m.U1 - m.U4, 2 * m.U5), 'isotropy of the invariants')
    return 0


def p_reject(kind, E11, E22, G12, ply_t, dv, da):
    ok = E11 > 0 and E22 > 0 and G12 > 0 and ply_t > 0 and dv >= 0 and da >= 0
    e = raises(cls(kind), E11=E11, E22=E22, nu12=0, G12=G12, ply_t=ply_t, density_volume=dv, density_area=da)
    check((e == '') == ok, 'constants accepted or rejected wrongly')
    return 0


def p_type(kind, field, v):
    e = raises(cls(kind), **{field: v})
    check((e == '') == isinstance(v, (int, float)), 'constant accepted or rejected wrongly')
    return 0


def p_density(kind, dv, da, ply_t, given):
    """at most one density given"""
    if given == 'none':
        m = cls(kind)(ply_t=ply_t)
        check(m.density_area > 0, 'default density')
    elif given == 'volume':
        m = cls(kind)(density_volume=dv, ply_t=ply_t)
        check(m.density_volume == dv, 'volume density stored')
    elif given == 'area':
        m = cls(kind)(density_area=da, ply_t=ply_t)
        check(m.density_area == da, 'area density stored')
    else:
        m = cls(kind)(density_area=da, density_volume=dv, ply_t=ply_t)
        check(m.density_area == da and m.density_volume == dv, 'densities stored')
        return 0
    check(m.ply_t == ply_t, 'ply thickness stored')
    check(close(m.density_volume * ply_t, m.density_area), 'densities and thickness inconsistent')
    return 0
