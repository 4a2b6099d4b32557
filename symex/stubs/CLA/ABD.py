"""Bending stiffness from lamination parameters; stands in for src.CLA.ABD."""
import numpy as np


def D_from_lampam(lampam, mat):
    u = [mat.U1, mat.U2, mat.U3, mat.U4, mat.U5]
    x = lampam[8:12]
    return np.array([
        [u[0] + u[1] * x[0] + u[2] * x[1], u[3] - u[2] * x[1], u[1] * x[2] / 2 + u[2] * x[3]],
        [u[3] - u[2] * x[1], u[0] - u[1] * x[0] + u[2] * x[1], u[1] * x[2] / 2 - u[2] * x[3]],
        [u[1] * x[2] / 2 + u[2] * x[3], u[1] * x[2] / 2 - u[2] * x[3], u[4] - u[2] * x[1]]])
