"""In-plane and out-of-plane lamination parameters of one lay-up; stands in for
src.CLA.lp_functions_2, absent from the repository."""
import numpy as np
from src.CLA.lampam_functions import calc_lampam, cos_sin


def calc_lampamA(ss, constraints):
    """the ply positions do not matter: shares of the fibre directions"""
    lampam = np.zeros((4,), float)
    for angle in constraints.set_of_angles:
        n = 0
        for k in range(ss.size):
            if ss[k] == angle:
                n = n + 1
        lampam = lampam + n * np.around(cos_sin(angle, constraints), 14)
    return lampam / ss.size


def calc_lampamD(ss, constraints):
    return calc_lampam(ss, constraints)[8:12]
