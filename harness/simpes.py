"""Smooth test potential: anharmonic wells, pair repulsion and a term which
depends on the cell.  Every evaluation can be recorded (CALLS)."""
import numpy as np
from ipi.pes.dummy import Dummy_driver

__DRIVER_NAME__ = "vfsim"
__DRIVER_CLASS__ = "VfSim"

CALLS = []  # (name, pos, cell)
RECORD = [False]


def evaluate(k, g, e, pos, cell):
    """energy, forces and virial"""
    x = np.asarray(pos, float).reshape(-1, 3)
    h = np.asarray(cell, float)
    a = 1.0 + 0.1 * np.arange(len(x))[:, None] + 0.03 * np.arange(3)[None, :]
    u = 0.5 * k * (a * x**2).sum() + 0.25 * g * (x**4).sum()
    f = -k * a * x - g * x**3
    if e:
        for i in range(len(x)):
            for j in range(i):
                d = x[i] - x[j]
                v = e * np.exp(-0.5 * d @ d)
                u += v
                f[i] += v * d
                f[j] -= v * d
    vir = f.T @ x
    # a bit of energy which belongs to the cell: c log(V)
    V = abs(np.linalg.det(h))
    u += 0.01 * k * np.log(V)
    vir = vir - 0.01 * k * np.eye(3)
    return float(u), f, vir


class VfSim(Dummy_driver):
    def __init__(self, k=0.1, g=0.0, e=0.0, name="", extra="", **kw):
        self.par = (float(k), float(g), float(e))
        self.name = str(name)
        self.extra = extra
        super().__init__()

    def compute_structure(self, cell, pos):
        if RECORD[0]:
            CALLS.append((self.name, np.array(pos).copy(), np.array(cell).copy()))
        u, f, v = evaluate(*self.par, pos, cell)
        x = '{"a": [%.15e, %.15e]}' % (u, f[0, 0]) if self.extra else ""
        return u, f.reshape(np.asarray(pos).shape), v, x
