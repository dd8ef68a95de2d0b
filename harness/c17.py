"""C17: inputs are read strictly and written so that they read back the same."""

import contextlib
import io
import json
import os
import random
import shutil

from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of reading a document against a schema (fields, attributes, dynamic tags, options, omissions), checked with TLC; every document TLC enumerates over a small schema, random documents over the complete i-PI schema, and the inputs shipped with i-PI with single faults planted in them are given to the real input classes; verdict, values, order and the tree obtained by writing and re-reading (XML and JSON) are validated against the specification with TLC"
NOTE = "all documents of up to 8 (thorough: 11) events with at most one fault on the small schema; the complete schema is sampled at random; whole simulations are rebuilt from their own checkpoint and must write it again"
TCFG = "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
MCFG = "CONSTANTS MaxLen=%d MaxDepth=3 MaxFaults=%d Wide=%s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Budget\nINVARIANTS RightVerdict NothingLost EmitDone\nPROPERTY RejectSticky\n"

SIMS = [
    "ipi_tests/regression_tests/tests",
    "examples/features",
    "examples/clients",
    "examples/temp",
    "ipi_tests/profiling",
]


# ----------------------------------------------------------------- documents
class Node:
    __slots__ = ("tag", "kind", "attrs", "text", "kids")

    def __init__(self, tag, kind):
        self.tag, self.kind, self.attrs, self.text, self.kids = tag, kind, [], None, []


def esc(s, q=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return s.replace("'", "&apos;").replace('"', "&quot;") if q else s


def render(n, ind=""):
    """text of a document; attrs: (name, class, text, value), text: same"""
    s = ind + "<" + n.tag + "".join(" %s='%s'" % (a[0], esc(a[2], True)) for a in n.attrs) + ">"
    if n.text is not None:
        s += " " + esc(n.text[2]) + " "
    for k in n.kids:
        s += "\n" + render(k, ind + "  ")
    return s + ("\n" + ind if n.kids else "") + "</" + n.tag + ">"


class Tokens:
    """equal tokens for equal values (floats up to the precision printed)"""

    def __init__(self, rtol, atol=0.0):
        self.atol = atol
        self.seen = {}
        self.rtol = rtol

    def __call__(self, path, v):
        import numpy as np

        l = self.seen.setdefault(tuple(path), [])
        for i, o in enumerate(l):
            if self.same(o, v):
                return "v%d" % i
        l.append(v.copy() if isinstance(v, np.ndarray) else v)
        return "v%d" % (len(l) - 1)

    def same(self, a, b):
        import numpy as np

        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.size != b.size:
                return False
            if a.dtype.kind == "f" or b.dtype.kind == "f":
                a, b = a.astype(float).ravel(), b.astype(float).ravel()
                if not a.size:
                    return True
                fin = np.isfinite(a)
                if not np.array_equal(fin, np.isfinite(b)):
                    return False
                sc = np.max(np.abs(a[fin])) if fin.any() else 0.0
                return bool(np.all(np.abs(a[fin] - b[fin]) <= self.rtol * np.abs(a[fin]) + 1e-12 * sc)) and [str(x) for x in a[~fin]] == [str(x) for x in b[~fin]]
            return [str(x) for x in a.ravel()] == [str(x) for x in b.ravel()]
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            try:
                a, b = float(a), float(b)
            except (TypeError, ValueError):
                return False
            return a == b or (a != a and b != b) or abs(a - b) <= self.rtol * abs(a) + self.atol
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return tuple(a) == tuple(b)
        return type(a) is type(b) and a == b or (isinstance(a, int) and isinstance(b, (int, np.integer)) and a == b)


def dump(o, path, tok, skip=()):
    """all values held by an input object, in order, and its dynamic nodes"""
    from ipi.utils.inputvalue import InputAttribute
    import numpy as np

    out, dyn = [], []
    for a in o.attribs:
        v = o.__dict__[a].value
        if a == "shape" and isinstance(o.value, np.ndarray) and tuple(v or ()) == (0,):
            v = (o.value.size,)
        out.append(dict(p=path + ["@" + a], v=tok(path + ["@" + a], v)))
    if isinstance(o, InputAttribute):
        out.append(dict(p=path, v=tok(path, o.value)))
    for f in o.instancefields:
        c = o.__dict__[f]
        if type(c).__name__ in skip:
            continue
        a, b = dump(c, path + [f], tok, skip)
        out += a
        dyn += b
    for i, (f, c) in enumerate(o.extra):
        p = path + ["%s#%d" % (f, i + 1)]
        dyn.append(p)
        a, b = dump(c, p, tok, skip)
        out += a
        dyn += b
    return out, dyn


def order_dyn(doc):
    out = []

    def go(n, path, schema):
        i = 0
        for k in n.kids:
            d = k.tag in schema["kinds"][n.kind]["dynamic"]
            i += d
            p = path + ["%s#%d" % (k.tag, i) if d else k.tag]
            if d:
                out.append(p)
            go(k, p, schema)

    return go, out


def leafcheck(o):
    """options, types, units and shapes of every leaf, as fetch does"""
    from ipi.utils.inputvalue import InputArray, InputAttribute, InputRaw, InputValue

    for a in o.attribs:
        if o.__dict__[a]._explicit:
            o.__dict__[a].fetch()
    if type(o) in (InputArray, InputValue, InputRaw) and o._explicit:
        o.fetch()
    for f in o.instancefields:
        leafcheck(o.__dict__[f])
    for f, c in o.extra:
        leafcheck(c)


def slim(schema, used):
    """the part of the schema a document touches, for the trace"""
    ks = {}
    for k in used:
        d = schema["kinds"][k]
        ks[k] = dict(
            req=d["req"],
            options=d["options"] is not None,
            leaf=d["leaf"] is not None,
            attribs={a: dict(req=v["req"], options=v["options"] is not None or (a == "units" and d.get("dim") not in (None, "undefined"))) for a, v in d["attribs"].items()},
            fields=dict(d["fields"]),
            dynamic=dict(d["dynamic"]),
        )
        for f in list(d["fields"].values()):
            if f not in used:
                ks[f] = dict(req=schema["kinds"][f]["req"], options=False, leaf=False, attribs={}, fields={}, dynamic={})
    ks["?"] = dict(req=False, options=False, leaf=False, attribs={}, fields={}, dynamic={})
    for k in ks.values():  # empty functions are <<>> in TLA+
        for x in ("attribs", "fields", "dynamic"):
            if not k[x]:
                k[x] = []
    return ks


def events(schema, doc, tok):
    used, ev = set(), []

    def go(n, path, root):
        used.add(n.kind)
        nd = 0
        for a in n.attrs:
            ev.append(dict(e="attr", a=a[0], c=a[1], v=tok(path + ["@" + a[0]], a[3]) if a[1] == "ok" else "?"))
        if n.text is not None:
            ev.append(dict(e="text", c=n.text[1], v=tok(path, n.text[3]) if n.text[1] == "ok" else "?"))
        for k in n.kids:
            d = n.kind != "?" and k.tag in schema["kinds"][n.kind]["dynamic"]
            nd += d
            ev.append(dict(e="open", tag=k.tag))
            if k.kind == "?":
                ev.append(dict(e="close"))
                continue
            go(k, path + ["%s#%d" % (k.tag, nd) if d else k.tag], False)
        ev.append(dict(e="close"))

    go(doc, [""], True)
    return [dict(root=doc.kind, kinds=slim(schema, used))] + ev


def reread(kind, how, text):
    from ipi.utils.io.inputs.io_json import json_to_xmlnode, xmlnode_to_json
    from ipi.utils.io.inputs.io_xml import xml_parse_string, xml_write

    node = xml_parse_string(text).fields[0][1]
    if how == "json":
        node = json_to_xmlnode(json.loads(json.dumps(xmlnode_to_json(node))), node.name)
    elif how == "echo":
        node = xml_parse_string(xml_write(xml_parse_string(text))).fields[0][1]
    o = kind()
    o.parse(node)
    return o


def check_doc(schema, make, doc, how, rtol, skip=()):
    """reads a document with the real classes; returns the trace"""
    tok = Tokens(rtol)
    ev = events(schema, doc, tok)
    text = render(doc)
    why = ""
    err = None
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            o = reread(make, how, text)
            leafcheck(o)
            ok = True
        except Exception as e:  # any refusal is a refusal
            ok, why, err = False, "%s: %s" % (type(e).__name__, str(e)[:120]), e
        if ok:
            try:
                t1, d1 = dump(o, [""], tok, skip)
                w = o.write(name=doc.tag)
                o2 = reread(make, "xml", w)
                t2, d2 = dump(o2, [""], tok, skip)
                if t1 != t2:
                    why = "differs: %s" % [(a, b) for a, b in zip(t1, t2) if a != b][:3] + " %d %d" % (len(t1), len(t2))
            except Exception as e:
                why = "reading back what was written: %s: %s" % (type(e).__name__, str(e)[:200])
                t2 = None
    ev.append(dict(e="verdict", ok=ok))
    if ok:
        ev.append(dict(e="held", tree=t1, dyn=d1))
        ev.append(dict(e="again", tree=t2 if t2 is not None else []))
    return ev, text, why


# ----------------------------------------------------------- the small schema
def small():
    from ipi.utils.inputvalue import Input, InputAttribute, InputValue

    opt = dict(dtype=str, options=["a", "b"], default="a", help="")
    n = dict(dtype=int, default=3, help="")

    class Sub(Input):
        attribs = {"w": (InputAttribute, n)}
        fields = {"n": (InputValue, n), "o": (InputValue, opt)}
        dynamic = {"item": (InputValue, dict(dtype=int, help=""))}

        def store(self, v=None):
            self._explicit = True

    class Root(Input):
        attribs = {"m": (InputAttribute, opt), "q": (InputAttribute, dict(dtype=int, help=""))}
        fields = {"n": (InputValue, n), "r": (InputValue, dict(dtype=int, help="")), "o": (InputValue, opt), "sub": (Sub, dict(default=1))}
        dynamic = {"item": (InputValue, dict(dtype=int, help="")), "box": (Sub, dict(default=1))}

    L = lambda req, o=None, t="int": dict(req=req, options=o, type=t)
    V = lambda req, o=None: dict(req=req, options=o, leaf="value", attribs={"units": L(False)}, fields={}, dynamic={})
    kinds = dict(
        root=dict(req=True, options=None, leaf=None, attribs=dict(m=L(False, ["a"]), q=L(True)), fields=dict(n="int", r="rint", o="opt", sub="sub"), dynamic=dict(item="item", box="sub")),
        sub=dict(req=False, options=None, leaf=None, attribs=dict(w=L(False)), fields=dict(n="int", o="opt"), dynamic=dict(item="item")),
        int=V(False),
        rint=V(True),
        opt=V(False, ["a", "b"]),
        item=V(True),
    )
    return Root, dict(root="root", kinds=kinds)


def from_hist(schema, h):
    root = Node("root", "root")
    st = [root]

    def val(v):
        return int(v) if v.lstrip("-").isdigit() else v

    for a in h:
        if a["op"] == "open":
            k = schema["kinds"].get(st[-1].kind, dict(fields={}, dynamic={}))
            n = Node(a["tag"], k["fields"].get(a["tag"]) or k["dynamic"].get(a["tag"]) or "?")
            st[-1].kids.append(n)
            st.append(n)
        elif a["op"] == "attr":
            st[-1].attrs.append((a["a"], a["c"], a["v"], val(a["v"])))
        elif a["op"] == "text":
            st[-1].text = (0, a["c"], a["v"], val(a["v"]))
        else:
            st.pop()
    return root


# ------------------------------------------------- documents over the i-PI schema
UNITS = {"length": ["angstrom", "nanometer", "atomic_unit"], "energy": ["electronvolt", "kelvin"], "time": ["femtosecond", "atomic_unit"], "temperature": ["kelvin"], "mass": ["dalton"], "pressure": ["gigapascal", "bar"], "frequency": ["inversecm", "thz"], "force": ["ev/ang"]}
CUSTOM = {"InputInitializer", "InputBEC", "InputAtoms", "InputRandom"}  # not written out, or read by rules of their own


def word(rng):
    return rng.choice(["alpha", "b2", "x_y-z", "file.xyz", "a b", "R&D", "p<q", "p>q", "it's", 'say "x"', "{cell}", "H", "100%", "a=b", "\u00e5ngstr\u00f6m", "a;b", "&amp;", "tom#1", "a/b/../c"])


def value(rng, typ, options, inlist=False):
    """(text, value) of a random legal value"""
    if options:
        o = rng.choice(options)
        if typ == "int":
            return o, int(o)
        return o, o
    if typ == "int":
        v = rng.choice([0, 1, -1, 7, 123456, rng.randint(0, 10**9)])
        return rng.choice(["%d", " %d ", "%d\n"]) % v if not inlist else "%d" % v, v
    if typ == "float":
        v = rng.choice([0.0, 1.0, -2.5, rng.uniform(-1, 1), rng.uniform(-1, 1) * 10 ** rng.randint(-12, 12)])
        return rng.choice(["%.17g", "%.17e", "%25.17e"]) % v, v
    if typ == "bool":
        v = rng.random() < 0.5
        return rng.choice([str(v), str(v).lower(), str(v).upper()]), v
    if typ == "tuple":
        v = tuple(rng.randint(1, 9) for _ in range(rng.randint(1, 3)))
        return "(" + ",".join(map(str, v)) + ")", v
    if typ == "dict":
        v = {}
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["model", "k", "p_1", "file"])
            v[k] = rng.choice([1, -3, 2.5, 1e-7, True, False, "x.yaml", "p<q", "a&b", "c:d"])
        return "{" + ", ".join("%s: %s" % (a, b) for a, b in v.items()) + "}", v
    v = word(rng)
    if inlist:
        v = v.strip("'\" ").replace(",", "") or "x"
    return v, v.strip()


def gen(schema, kind, tag, rng, depth, budget):
    import numpy as np

    d = schema["kinds"][kind]
    n = Node(tag, kind)
    cls = d["cls"].rsplit(".", 1)[-1]
    arr = d["leaf"] == "array"
    if d["leaf"] and d["leaf"] != "raw":
        if arr:
            shape = (3, 3) if cls == "InputCell" else rng.choice([None, None, (rng.randint(1, 12),), (rng.randint(1, 4), rng.randint(1, 4)), (2, 1, 3)])
            size = int(np.prod(shape)) if shape else rng.choice([0, 1, 2, 5, 6, 11])
            tv = [value(rng, d["type"], None, True) for _ in range(size)]
            dt = dict(int=int, float=float, bool=bool, str=str)[d["type"]]
            n.text = (0, "ok", "[ " + ", ".join(t for t, _ in tv) + " ]", np.array([v for _, v in tv], dt))
            if shape:
                n.attrs.append(("shape", "ok", "(" + ", ".join(map(str, shape)) + ")", tuple(shape)))
        else:
            t, v = value(rng, d["type"], d["options"])
            n.text = (0, "ok", t, v)
    for a, s in d["attribs"].items():
        if a in ("shape",) or (a == "mode" and arr):
            continue
        if a == "units":
            u = UNITS.get(d.get("dim"))
            if u and rng.random() < 0.5:
                x = rng.choice(u)
                n.attrs.append((a, "ok", x, x))
            continue
        if s["req"] or rng.random() < 0.4:
            t, v = value(rng, s["type"], s["options"])
            if s["type"] == "int" and s["options"] is None:
                t, v = str(abs(v)), abs(v)
            n.attrs.append((a, "ok", t, v))
    rng.shuffle(n.attrs)
    for f, k in d["fields"].items():
        kc = schema["kinds"][k]["cls"].rsplit(".", 1)[-1]
        if kc in CUSTOM and not schema["kinds"][k]["req"]:
            continue
        if schema["kinds"][k]["req"] or rng.random() < (0.35 if budget[0] > 0 else 0.0):
            budget[0] -= 1
            n.kids.append(gen(schema, k, f, rng, depth + 1, budget))
    for f, k in d["dynamic"].items():
        kc = schema["kinds"][k]["cls"].rsplit(".", 1)[-1]
        if depth < 3 and kc not in CUSTOM:
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if depth == 0 else rng.choice([0, 0, 1])):
                if budget[0] > 0:
                    budget[0] -= 1
                    n.kids.append(gen(schema, k, f, rng, depth + 1, budget))
    rng.shuffle(n.kids)
    return n


def nodes(n, path=()):
    yield n
    for k in n.kids:
        yield from nodes(k)


BADTEXT = dict(int="4x", float="1.2.3", bool="perhaps", tuple="3 4", dict="a b c")


def plant(schema, doc, rng):
    """one fault in the document; False if the place chosen cannot have it"""
    n = rng.choice([x for x in nodes(doc) if x.kind in schema["kinds"] and schema["kinds"][x.kind]["leaf"] != "raw"])
    d = schema["kinds"][n.kind]
    f = rng.choice(["tag", "att", "attbad", "attout", "text", "drop", "dropatt"])
    if f == "tag":
        n.kids.insert(rng.randint(0, len(n.kids)), Node(rng.choice(["zzz", "positio", "forces_"]), "?"))
    elif f == "att":
        n.attrs.insert(rng.randint(0, len(n.attrs)), (rng.choice(["zzz", "modes", "unit"]), "ok", "1", "1"))
    elif f in ("attbad", "attout"):
        c = [i for i, a in enumerate(n.attrs) if a[0] in d["attribs"] and (d["attribs"][a[0]]["options"] if f == "attout" else d["attribs"][a[0]]["type"] in BADTEXT)]
        if f == "attout" and not c:
            if "units" in d["attribs"] and d.get("dim") not in (None, "undefined", "number") and d["cls"].endswith(("InputValue", "InputArray")):
                n.attrs = [a for a in n.attrs if a[0] != "units"] + [("units", "out", "furlong", "furlong")]
                return f
            return False
        if not c:
            return False
        i = rng.choice(c)
        s = d["attribs"][n.attrs[i][0]]
        n.attrs[i] = (n.attrs[i][0], "out", "zzz" if s["type"] != "int" else "987", "zzz") if f == "attout" else (n.attrs[i][0], "bad", BADTEXT[s["type"]], None)
    elif f == "text":
        if n.text is None:
            return False
        if d["leaf"] == "value" and d["options"]:
            n.text = (0, "out", "zzz", "zzz")
        elif d["leaf"] == "array":
            if rng.random() < 0.5 and any(a[0] == "shape" for a in n.attrs) and d["cls"].endswith("InputArray"):
                n.attrs = [a for a in n.attrs if a[0] != "shape"] + [("shape", "ok", "(7,13)", (7, 13))]
                n.text = (0, "bad", n.text[2], None)
            elif d["type"] in BADTEXT:
                n.text = (0, "bad", "[ %s ]" % BADTEXT[d["type"]], None)
            else:
                n.text = (0, "bad", "a b c", None)
        elif d["type"] in BADTEXT:
            n.text = (0, "bad", BADTEXT[d["type"]], None)
        else:
            return False
    elif f == "drop":
        c = [k for k in n.kids if k.tag in d["fields"] and schema["kinds"][d["fields"][k.tag]]["req"]]
        if not c:
            return False
        n.kids.remove(rng.choice(c))
    else:
        c = [a for a in n.attrs if a[0] in d["attribs"] and d["attribs"][a[0]]["req"]]
        if not c:
            return False
        n.attrs.remove(rng.choice(c))
    return f


def each_fault(schema, kind, rng):
    """one document per fault the topmost node of this kind can have"""
    d = schema["kinds"][kind]

    def base():
        return gen(schema, kind, "node", rng, 0, [4])

    for a, s in d["attribs"].items():
        if a in ("shape", "units"):
            continue
        bad = ([("bad", BADTEXT[s["type"]])] if s["type"] in BADTEXT else []) + ([("out", "zzz" if s["type"] != "int" else "987")] if s["options"] else [])
        for c, t in bad:
            doc = base()
            doc.attrs = [x for x in doc.attrs if x[0] != a] + [(a, c, t, None)]
            yield doc, "%s %s" % (c, a)
        if s["req"]:
            doc = base()
            doc.attrs = [x for x in doc.attrs if x[0] != a]
            yield doc, "lacks " + a
    for f, k in d["fields"].items():
        if schema["kinds"][k]["req"]:
            doc = base()
            doc.kids = [x for x in doc.kids if x.tag != f]
            yield doc, "lacks " + f
    doc = base()
    doc.kids.append(Node("zzz", "?"))
    yield doc, "unknown tag"
    doc = base()
    doc.attrs.append(("zzz", "ok", "1", "1"))
    yield doc, "unknown attribute"


def maker(schema, kind):
    import importlib

    # classes need the arguments their parent gives them: found through the parent
    from ipi.inputs.simulation import InputSimulation

    want = schema["kinds"][kind]
    for k, d in schema["kinds"].items():
        for tag, kk in list(d["fields"].items()) + list(d["dynamic"].items()):
            if kk == kind:
                m, c = d["cls"].rsplit(".", 1)
                cls = getattr(importlib.import_module(m), c)
                try:
                    x = cls.fields.get(tag) or cls.dynamic.get(tag)
                    if x is not None:
                        return lambda: x[0](**x[1])
                except Exception:
                    pass
    return InputSimulation if kind == schema["root"] else None


# ------------------------------------------------------------ whole simulations
def of_xml(schema, node, kind, tag):
    """document model of an existing input (values not interpreted)"""
    n = Node(tag, kind)
    d = schema["kinds"].get(kind)
    for a, v in node.attribs.items():
        n.attrs.append((a, "ok", v, v))
    txt = ""
    for f, v in node.fields:
        if f == "_text":
            txt = v
        elif d is None or d["leaf"] == "raw":
            n.kids.append(of_xml(schema, v, "?raw", f))
        else:
            k = d["fields"].get(f) or d["dynamic"].get(f)
            n.kids.append(of_xml(schema, v, k or "?", f))
    if d is not None and d["leaf"] and d["leaf"] != "raw" or (kind == "?raw" and txt.strip()):
        n.text = (0, "ok", txt.strip(), txt.strip())
    return n


def load(text, prec="%25.17e", quiet=True):
    import ipi.inputs.simulation as I
    from ipi.utils.io.inputs.io_xml import xml_parse_string

    i = I.InputSimulation()
    i.parse(xml_parse_string(text).fields[0][1])
    if prec:
        i.floatformat.value = prec
    if quiet:
        i.verbosity.value = "quiet"
    s = i.fetch()
    s.bind(True)
    return s


def checkpoint(s):
    import ipi.inputs.simulation as I

    j = I.InputSimulation()
    j.store(s)
    return j.write("simulation")


def sim_worker(arg):
    """one shipped input: faults planted one at a time, then the checkpoint of
    the simulation it describes.  Returns traces."""
    fn, seed, nfaults, schema = arg
    os.chdir(os.path.dirname(fn))
    rng = random.Random("%s/%s" % (seed, os.path.basename(os.path.dirname(fn))))
    from ipi.inputs.simulation import InputSimulation
    from ipi.utils.io.inputs.io_xml import xml_parse_string

    out = []
    null = open(os.devnull, "w")
    with contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        text = open(fn).read()
        try:
            root = xml_parse_string(text).fields[0]
            s = load(text)
        except BaseException as e:
            return [], "%s %s" % (type(e).__name__, str(e)[:80])
        doc = of_xml(schema, root[1], schema["root"], root[0])

        def evs(d):
            tok = Tokens(1e-12)
            try:
                ev = events(schema, strip_raw(schema, d), lambda p, v: "x")
            except KeyError:
                return None
            return ev

        tok = Tokens(1e-12, 1e-12)  # binding removes the motion of the centre of mass again
        ev = evs(doc)
        if ev is not None:
            ev.append(dict(e="verdict", ok=True))
            why = ""
            t1 = ""
            try:
                t1 = checkpoint(s)
                try:
                    s2 = load(t1)
                    t2 = checkpoint(s2)
                    trees = []
                    for t in (t1, t2):
                        o = InputSimulation()
                        o.parse(xml_parse_string(t).fields[0][1])
                        trees.append(dump(o, [""], tok, skip)[0])
                    # the state of the generator moves on when binding draws
                    if "SCP" in text or "scp" in text:
                        trees = [[x for x in tr if "prng" not in x["p"]] for tr in trees]
                    diff = [(a, b) for a, b in zip(*trees) if a != b][:3]
                    why = str(diff) + " %d %d" % tuple(map(len, trees)) if trees[0] != trees[1] else ""
                except Exception as e:
                    trees = [[dict(p=["written"], v="1")], []]
                    why = "its own checkpoint: %s: %s" % (type(e).__name__, str(e)[:200])
                if trees[0] == trees[1]:
                    ev += [dict(e="written", tree=trees[0][:40]), dict(e="again", tree=trees[1][:40])]
                else:
                    bad = [i for i, (a, b) in enumerate(zip(*trees)) if a != b][:5]
                    ev += [dict(e="written", tree=[trees[0][i] for i in bad] or [dict(p=["n"], v=str(len(trees[0])))]), dict(e="again", tree=[trees[1][i] for i in bad])]
            except Exception as e:
                ev += [dict(e="written", tree=[]), dict(e="again", tree=[dict(p=["failed"], v="1")])]
                why = "writing the checkpoint: %s: %s" % (type(e).__name__, str(e)[:200])
            out.append((ev, dict(input=fn.split("/w/")[-1], fault=None, why=why)))
        for _ in range(nfaults):
            d = of_xml(schema, root[1], schema["root"], root[0])
            f = plant(schema, d, rng)
            if not f:
                continue
            ev = evs(d)
            if ev is None:
                continue
            t = render(d)
            try:
                load(t, None, False)
                ok, why = True, "accepted"
            except BaseException as e:
                ok, why = False, "%s: %s" % (type(e).__name__, str(e)[:100])
            ev.append(dict(e="verdict", ok=ok))
            out.append((ev, dict(input=fn.split("/w/")[-1], fault=f, text=t[:1500] if ok else "", why=why)))
    return out, None


skip = ("InputInitializer",)


def strip_raw(schema, n):
    m = Node(n.tag, n.kind)
    m.attrs, m.text = n.attrs, n.text
    d = schema["kinds"].get(n.kind)
    m.kids = [] if d is None or d["leaf"] == "raw" else [strip_raw(schema, k) for k in n.kids]
    return m


def stored(rng):
    """a value is stored in a field, written, read and fetched again"""
    import numpy as np
    from ipi import ipi_global_settings
    from ipi.utils.inputvalue import Input, InputArray, InputValue

    ff, rt = rng.choice([("%16.8e", 2e-8), ("%25.17e", 1e-14), ("%22.15e", 1e-13)])
    ipi_global_settings["floatformat"] = ff
    tok = Tokens(rt)
    typ = rng.choice(["float", "float", "int", "bool", "str", "tuple", "dict", "array", "array", "array"])
    dim, unit = None, ""
    arr = typ == "array"
    if arr:
        typ = rng.choice(["float", "float", "float", "int", "bool", "str"])
    if typ == "float" and rng.random() < 0.6:
        dim = rng.choice(sorted(UNITS))
        unit = rng.choice(["", ""] + UNITS[dim])
    py = dict(int=int, float=float, bool=bool, str=str, tuple=tuple, dict=dict)[typ]
    if arr:
        shape = rng.choice([(0,), (1,), (5,), (6,), (3, 3), (4, 2), (2, 1, 3), (rng.randint(7, 40),), (rng.choice([300, 700, 1500]),), (rng.randint(100, 400), 3)])
        size = int(np.prod(shape))
        v = np.array([value(rng, typ, None, True)[1] for _ in range(size)], py).reshape(shape)
        dv = rng.choice([None, np.zeros(0, py), v.copy(), v[:1].copy(), v.ravel().copy()])
    else:
        v = value(rng, typ, None)[1]
        dv = rng.choice([None, v, value(rng, typ, None)[1]])

    class Holder(Input):
        fields = {"x": (InputArray if arr else InputValue, dict(dtype=py, default=dv, **({"dimension": dim} if dim else {}))), "last": (InputValue, dict(dtype=int, default=0))}

        def store(self, a):
            self._explicit = True
            self.x.store(a, unit)
            self.last.store(3)

    kinds = {"k": dict(req=False, options=False, leaf=True, attribs=[], fields=[], dynamic=[])}

    def val(o):
        x = o.x.fetch()
        return [dict(p=[""], v=tok([""], (x if not arr else np.array([float(len(x.shape))] + [float(k) for k in x.shape] + list(x.ravel())) if typ != "str" else np.array([str(k) for k in x.shape] + list(x.ravel())))))] if o.last.fetch() == 3 else []

    ev = [dict(root="k", kinds=kinds)]
    want = Holder()
    why, text = "", ""
    with contextlib.redirect_stdout(io.StringIO()):
        want.store(v)
        direct = v if not arr else np.array([float(len(v.shape))] + [float(k) for k in v.shape] + list(v.ravel())) if typ != "str" else np.array([str(k) for k in v.shape] + list(v.ravel()))
        ev += [dict(e="text", c="ok", v=tok([""], direct)), dict(e="close")]
        try:
            text = want.write(name="holder")
            o = reread(Holder, rng.choice(["xml", "xml", "echo", "json"]), text)
            t1 = val(o)
            t2 = val(reread(Holder, "xml", o.write(name="holder")))
            ok = True
        except Exception as e:
            ok, why = False, "%s: %s" % (type(e).__name__, str(e)[:200])
    ev.append(dict(e="verdict", ok=ok))
    if ok:
        ev += [dict(e="held", tree=t1, dyn=[]), dict(e="again", tree=t2)]
    return ev, dict(stored=repr(v)[:300], dtype=typ, dimension=dim, units=unit, floatformat=ff, text=text[:1500], why=why)


def run(ctx):
    import numpy as np  # noqa

    jobs = []
    tmp = vf.scratch("c17_")
    w = os.path.join(tmp, "w")
    os.mkdir(w)
    for d in SIMS:
        src = os.path.join(vf.REPO, d)
        if os.path.isdir(src):
            os.makedirs(os.path.dirname(os.path.join(w, d)), exist_ok=True)
            shutil.copytree(src, os.path.join(w, d), symlinks=True)
    # 1. the small schema, exhaustively
    out = os.path.join(tmp, "docs")
    docs = []
    for ml, mf, wide in ctx.n([(8, 1, "FALSE"), (6, 2, "TRUE")], [(10, 1, "FALSE"), (8, 2, "TRUE"), (9, 1, "TRUE")]):
        open(out, "w").close()
        ctx.tlc_stats(vf.must_tlc("InputTreeMC", MCFG % (ml, mf, wide), env={"EMIT_OUT": out}, timeout=1500, heap="6g"))
        for line in open(out):
            line = line.strip()
            if line:
                docs.append(line)
    rng = random.Random(ctx.seed)
    docs = sorted(set(docs))
    acc = [x for x in docs if '"op' in x and ('"ok":true' in x.replace("\\", "").split('"given"')[0] or '"ok":true' in x.replace("\\", "").split('"given"')[-1].split('"h"')[0])]
    rest = [x for x in docs if x not in set(acc)]
    ctx.count("documents_enumerated", len(docs))
    rng.shuffle(rest)
    pick = acc[: ctx.n(600, 6000)] + rest[: ctx.n(2500, 30000)]
    Root, schema0 = small()
    batch = []
    for line in pick:
        r = json.loads(line)
        if isinstance(r, str):
            r = json.loads(r)
        doc = from_hist(schema0, r["h"])
        how = rng.choice(["xml", "xml", "json", "echo"])
        if how == "json" and mixed(doc):
            how = "xml"
        ev, text, why = check_doc(schema0, Root, doc, how, 1e-12)
        batch.append((ev, dict(how=how, text=text, why=why)))
    # 2. the schema of i-PI
    schema = json.load(open(os.path.join(vf.VERIF, "data", "input_schema.json")))
    import ipi

    ks = [k for k, d in schema["kinds"].items() if d["cls"].rsplit(".", 1)[-1] not in CUSTOM and d["leaf"] != "raw" and maker(schema, k) is not None]
    for k in ks:
        mk = maker(schema, k)
        n = ctx.n(6, 80) * (5 if k == schema["root"] else 1)
        for i in range(n):
            ff, rt = rng.choice([("%16.8e", 2e-8), ("%25.17e", 1e-14)])
            ipi.ipi_global_settings["floatformat"] = ff
            doc = gen(schema, k, "node", rng, 0, [rng.randint(2, 25)])
            fault = None
            if i % 2:
                fault = plant(schema, doc, rng)
                if not fault:
                    continue
            how = rng.choice(["xml", "echo", "json"]) if schema["kinds"][k]["leaf"] != "raw" else "xml"
            if how == "json" and mixed(doc):
                how = "echo"
            ev, text, why = check_doc(schema, mk, doc, how, rt, ("InputInitializer", "InputRandom"))
            batch.append((ev, dict(kind=k, how=how, fault=fault, floatformat=ff, text=text[:3000], why=why)))
        for doc, fault in each_fault(schema, k, rng):
            ev, text, why = check_doc(schema, mk, doc, "xml", 2e-8, ("InputInitializer", "InputRandom"))
            batch.append((ev, dict(kind=k, fault=fault, text=text[:3000], why=why)))
    ipi.ipi_global_settings["floatformat"] = "%16.8e"
    # values stored by the program, with or without units, and read back
    for i in range(ctx.n(400, 6000)):
        batch.append(stored(rng))
    ipi.ipi_global_settings["floatformat"] = "%16.8e"
    # 3. whole simulations
    fns = []
    for b, dirs, fs in os.walk(w):
        fns += [os.path.join(b, f) for f in fs if f.startswith("input") and f.endswith(".xml")]
    fns.sort(key=lambda f: (os.path.getsize(f), f))
    if ctx.quick:
        first = [f for f in fns if "regression_tests/tests" in f or "profiling" in f]
        other = [f for f in fns if f not in set(first)]
        rng.shuffle(other)
        fns = first + other[:50]
    res = vf.procmap(sim_worker, [(f, ctx.seed, ctx.n(8, 60), schema) for f in fns], workers=7)
    skipped = 0
    for (r, why), f in zip(res, fns):
        if why:
            skipped += 1
        batch += r
    ctx.count("simulation_inputs", len(fns) - skipped)
    if skipped > len(fns) // 3:
        ctx.violation("most of the inputs shipped with i-PI are refused", [x[1] for x in res if x[1]][:5])
    # everything against the specification
    for i in range(0, len(batch), 800):
        part = batch[i : i + 800]
        r, prog = vf.validate_traces("InputTreeTrace", TCFG, [e for e, _ in part])
        ctx.tlc_stats(r)
        for (ev, info), p in zip(part, prog):
            if p < len(ev):
                ctx.violation("the specification cannot explain event %d: %s" % (p, json.dumps(ev[p])[:200]), dict(info=info, event=ev[p] if len(json.dumps(ev[p])) < 4000 else str(ev[p])[:2000]))
            else:
                ctx.traces()
    ctx.sample(batch[0][1])
    ctx.sample([b[1] for b in batch if b[1].get("fault")][0])
    ctx.assumptions += ["a repeated non-dynamic field is outside the documented input format", "strings inside lists contain none of the list separators", "numbers are compared to the precision of the float format in use"]


def mixed(doc):
    """JSON groups children by name: order between different names is not kept"""
    for n in nodes(doc):
        tags = [k.tag for k in n.kids]
        runs = [t for i, t in enumerate(tags) if i == 0 or tags[i - 1] != t]
        if len(runs) != len(set(runs)):
            return True
        if n.kind != "?" and any(t in ("value", "attributes") for t in tags):
            return True
    return False
