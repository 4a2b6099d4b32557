"""Classical lamination parameters (textbook formulae); stands in for the
module src.CLA.lampam_functions, absent from the repository."""
import numpy as np


def calc_lampam(ss, constraints=None):
    """the twelve lamination parameters of a lay-up, or one row per lay-up"""
    if isinstance(ss, list):
        lampam = np.zeros((len(ss), 12), float)
        for k in range(len(ss)):
            lampam[k] = calc_lampam(ss[k], constraints)
        return lampam
    n = ss.size
    lampam = np.zeros((12,), float)
    for k in range(n):
        c = cos_sin(ss[k], constraints)
        bot = 2 * k / n - 1
        top = 2 * (k + 1) / n - 1
        lampam[0:4] = lampam[0:4] + (top - bot) / 2 * c
        lampam[4:8] = lampam[4:8] + (top ** 2 - bot ** 2) / 2 * c
        lampam[8:12] = lampam[8:12] + (top ** 3 - bot ** 3) / 2 * c
    if constraints is not None and constraints.sym:
        lampam[4:8] = 0
    return lampam


def cos_sin(angle, constraints=None):
    if constraints is not None:
        return constraints.cos_sin[constraints.ind_angles_dict[angle]].reshape((4,))
    a = np.deg2rad(angle)
    return np.array([np.cos(2 * a), np.cos(4 * a), np.sin(2 * a), np.sin(4 * a)], float)


def calc_lampam_from_delta_lp_matrix(stack, constraints, delta_lampams):
    """lamination parameters as the sum of the ply contributions"""
    lampam = np.zeros((12,), float)
    for k in range(delta_lampams.shape[0]):
        lampam = lampam + delta_lampams[k, constraints.ind_angles_dict[stack[k]]]
    return lampam


def calc_delta_lampam(*args):
    raise NotImplementedError


def calc_delta_lampam_mp_3(*args):
    raise NotImplementedError
