"""Extracts the input schema (fields, attributes, requirements, options) of the
pinned i-PI into data/input_schema.json.  Run once: the checks use the frozen
file, so that a change that loosens the schema is noticed."""
import json, sys
sys.path.insert(0, "/repo")
from ipi.inputs.simulation import InputSimulation
from ipi.utils.inputvalue import *
from ipi.utils.inputvalue import InputRaw

kinds = {}
ids = {}


def kid(cls, kw):
    k = (cls.__name__, repr(sorted((a, repr(b)) for a, b in kw.items() if a not in ("help", "default"))), "default" in kw and kw["default"] is not None)
    if k not in ids:
        ids[k] = "%s_%d" % (cls.__name__, len(ids))
        kinds[ids[k]] = None
        kinds[ids[k]] = describe(cls, kw)
    return ids[k]


def describe(cls, kw):
    o = cls(**kw)
    d = dict(cls=cls.__module__ + "." + cls.__name__, req=not o._optional, attribs={}, fields={}, dynamic={}, leaf=None, options=None, type=None)
    for a, (c, w) in cls.attribs.items():
        d["attribs"][a] = leaf(c(**w))
    for f, (c, w) in o.instancefields.items():
        d["fields"][f] = kid(c, w)
    for f, (c, w) in cls.dynamic.items():
        d["dynamic"][f] = kid(c, w)
    if isinstance(o, InputAttribute):
        d.update(leaf(o))
        d["leaf"] = "array" if isinstance(o, InputArray) else "raw" if isinstance(o, InputRaw) else "value"
    return d


def leaf(o):
    return dict(type=o.type.__name__, req=not o._optional, options=[str(x) for x in o._valid] if getattr(o, "_valid", None) is not None else None, dim=getattr(o, "_dimension", None))


root = kid(InputSimulation, {})
json.dump(dict(root=root, kinds=kinds), open("/verif/data/input_schema.json", "w"), indent=0, sort_keys=True)
print(len(kinds))
