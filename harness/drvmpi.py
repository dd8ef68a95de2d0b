"""Scripted MPI server (world rank 0): plays the operations of argv[1] with the
worker groups and writes what it saw to argv[2]."""
import json
import sys

import mpi4py

mpi4py.rc.thread_level = "multiple"
from mpi4py import MPI
import numpy as np

sc = json.load(open(sys.argv[1]))
comm = MPI.COMM_WORLD
comm.Split(color=0, key=0)
out = dict(groups=[], answers=[])
st = MPI.Status()
members = []
while len(members) < comm.Get_size() - 1:
    comm.Probe(source=MPI.ANY_SOURCE, tag=1, status=st)
    src = st.Get_source()
    a = np.empty(st.Get_count(MPI.INT), np.int32)
    comm.Recv([a, MPI.INT], source=src, tag=1)
    comm.Probe(source=src, tag=1, status=st)
    nm = np.empty(st.Get_count(MPI.BYTE), np.uint8)
    comm.Recv([nm, MPI.BYTE], source=src, tag=1)
    out["groups"].append([int(src), [int(x) for x in a], nm.tobytes().decode()])
    members += [int(x) for x in a[2:]]
roots = sorted(g[0] for g in out["groups"])
nat = sc["nat"]
S = [(np.array(p), np.array(h)) for p, h in sc["structs"]]
for op in sc["ops"]:
    r = roots[op[1] % len(roots)]
    if op[0] == "init":
        b = np.frombuffer(op[2].encode(), np.uint8)
        comm.Send([np.array([3, len(b)], np.int32), MPI.INT], dest=r, tag=2)
        comm.Send([b, MPI.BYTE], dest=r, tag=2)
    elif op[0] == "pos":
        body = np.concatenate([np.concatenate([S[i - 1][1].flatten(), np.linalg.inv(S[i - 1][1]).flatten(), S[i - 1][0].flatten()]) for i in op[2]])
        comm.Send([np.array([nat, len(op[2])], np.int32), MPI.INT], dest=r, tag=3)
        comm.Send([body, MPI.DOUBLE], dest=r, tag=3)
    elif op[0] == "recv":
        comm.Probe(source=r, tag=4, status=st)
        a = np.empty(st.Get_count(MPI.DOUBLE), float)
        comm.Recv([a, MPI.DOUBLE], source=r, tag=4)
        comm.Probe(source=r, tag=5, status=st)
        x = np.empty(st.Get_count(MPI.BYTE), np.uint8)
        comm.Recv([x, MPI.BYTE], source=r, tag=5)
        out["answers"].append([op[1], a.tolist(), x.tobytes().hex()])
for r in roots:
    comm.Send([np.zeros(1, np.int32), MPI.INT], dest=r, tag=6)
json.dump(out, open(sys.argv[2], "w"))
