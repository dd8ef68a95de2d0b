"""A potential whose energy, forces, virial and extras all identify the structure."""
import hashlib
import json

import numpy as np
from ipi.pes.dummy import Dummy_driver

__DRIVER_NAME__ = "vfpes"
__DRIVER_CLASS__ = "VfPes"


class VfPes(Dummy_driver):
    def compute_structure(self, cell, pos):
        pos = np.array(pos, float).reshape(-1, 3)
        cell = np.array(cell, float)
        w = np.arange(1, pos.size + 1).reshape(pos.shape)
        c = float((cell * np.arange(1, 10).reshape(3, 3)).sum())
        pot = float((pos * w).sum() + 0.125 * c)
        force = np.array(pos * w - 0.25 * c, float)
        vir = np.array(cell @ cell + np.outer(pos.sum(0), pos[0]), float)
        h = hashlib.sha256(pos.tobytes() + cell.tobytes()).hexdigest()
        k = int(h[:2], 16) % 4
        extras = ["", "plain " + h, "é" * (1 + int(h[2:4], 16) % 9) + h, json.dumps({"κ": h}, ensure_ascii=False)][k]
        if len(pos) > 4:
            extras += "∆" * 3000
        return pot, force, vir, extras
