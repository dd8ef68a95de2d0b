"""Builds real simulations from XML in a scratch directory."""
import os
import sys

import numpy as np

from lib import vf

PES = os.path.join(vf.VERIF, "harness", "simpes.py")


def arr(a):
    return "[" + ", ".join("%.17g" % x for x in np.asarray(a, float).flatten()) + "]"


def ff(name, k=0.1, g=0.0, e=0.0, extra="", **kw):
    return "<ffdirect name='%s' pbc='False' threaded='False'><pes>custom</pes><pes_path>%s</pes_path><parameters>{k: %r, g: %r, e: %r, name: %s%s}</parameters></ffdirect>" % (name, PES, k, g, e, name, ", extra: yes" if extra else "")


def beads(q, p=None, m=None, names=None):
    q = np.atleast_2d(q)
    nb, n3 = q.shape
    nat = n3 // 3
    m = np.full(nat, 1837.0) if m is None else m
    names = ["H"] * nat if names is None else names
    s = "<beads natoms='%d' nbeads='%d'><q shape='(%d,%d)'>%s</q>" % (nat, nb, nb, n3, arr(q))
    if p is not None:
        s += "<p shape='(%d,%d)'>%s</p>" % (nb, n3, arr(p))
    return s + "<m>%s</m><names>[%s]</names></beads>" % (arr(m), ", ".join(names))


def cell(h):
    return "<cell shape='(3,3)'>%s</cell>" % arr(h)


def simulation(systems, ffs, smotion="", seed=1, outputs="", total=1000, prefix="sim", attrs=""):
    return "<simulation verbosity='quiet' threading='False' %s><output prefix='%s'>%s</output><total_steps>%d</total_steps><prng><seed>%d</seed></prng>%s%s%s</simulation>" % (attrs, prefix, outputs, total, seed, "".join(ffs), smotion, "".join(systems))


def system(beads, cell, forces, ensemble, motion, prefix="s", nm="", init=""):
    return "<system prefix='%s'>%s%s%s%s<forces>%s</forces><ensemble>%s</ensemble>%s</system>" % (prefix, init, beads, cell, nm, forces, ensemble, motion)


class Silent:
    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.fd = [os.dup(1), os.dup(2)]
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
        os.close(n)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.fd[0], 1)
        os.dup2(self.fd[1], 2)
        os.close(self.fd[0])
        os.close(self.fd[1])


def load(xml, where=None, hook=None):
    """the Simulation object of an input (cwd is changed to a scratch directory)"""
    from ipi.engine.simulation import Simulation

    os.chdir(where or vf.scratch("sim_"))
    kw = dict(post_init_hook=hook) if hook else {}
    return Simulation.load_from_xml(xml, **kw)


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
