"""Units and quantities: files, defaults, consistency."""
import itertools

from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..exporters import ALL, out_args, outputs
from ..gen import dump, prob, subtypes
from ..ref import PRIMITIVES
from ..runner import Violation, judging

RULE = (
    "Generated quantity files (0-2) and unit files (0-3) in different folders, given by -q/-u or picked up as defaults "
    "next to the vspec (with decoy files in the working directory and decoy defaults when options are given), with "
    "redefinitions, unknown quantities, unknown datatypes, None entries and missing fields; a model whose signals use "
    "units by key or by name with every datatype; read by the JSON or one of the other 13 exporters. Non-trivial: at least one unit is defined and one signal uses a unit."
)
COUNTS = {"quick": 2400, "thorough": 40000}
QK = ["length", "relative", "time", "angle"]
UK = ["km", "percent", "s", "deg", "m", "iso"]
UN = {"km": "kilometer", "percent": "per cent", "s": "second", "deg": "degree", "m": "meter", "iso": "ISO 8601"}
LATTICE = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float", "double", "boolean", "string", "numeric"]


@st.composite
def strategy_(draw):
    d = draw
    qfiles = []
    qseen = set()
    for i in range(d(st.sampled_from([1, 1, 1, 2, 2, 0]))):
        q = {}
        for k in d(st.lists(st.sampled_from(QK), min_size=1, max_size=3, unique=True)):
            if k in qseen and not prob(d, 0.08):
                continue
            qseen.add(k)
            q[k] = {"definition": "def " + k}
            if prob(d, 0.2):
                q[k]["comment"] = "c"
        if prob(d, 0.04):
            q[d(st.sampled_from(QK))] = d(st.sampled_from([None, {"comment": "no definition"}]))
        qfiles.append(q)
    qdef = {k for q in qfiles for k in q}
    ufiles = []
    seen = set()
    for i in range(d(st.sampled_from([1, 1, 1, 2, 2, 3, 0]))):
        u = {}
        for k in d(st.lists(st.sampled_from(UK), min_size=1, max_size=3, unique=True)):
            if k in seen and not prob(d, 0.08) or not qdef and prob(d, 0.8):
                continue
            seen.add(k)
            qs = sorted(qdef) if qdef and not prob(d, 0.05) else QK + ["weird"]
            e = {"definition": "def " + k, "unit": UN[k], "quantity": d(st.sampled_from(qs))}
            e["allowed-datatypes"] = d(st.lists(st.sampled_from(LATTICE), min_size=1, max_size=2, unique=True))
            if prob(d, 0.1):
                e["unit"] = None
            elif prob(d, 0.2):
                e["unit"] = d(st.sampled_from(UK + list(UN.values())))  # also the key or name of another unit
            odd = d(st.integers(0, 59))
            if odd == 59:
                e = None
            elif odd == 58:
                e["allowed-datatypes"].append(d(st.sampled_from(["uint7", "bool", "Float", "Types.X"])))
            elif odd == 57:
                e.pop(d(st.sampled_from(["definition", "quantity", "unit"])))
            u[k] = e
        ufiles.append(u)
    base = {"V": {"type": "branch", "description": "r"}}
    defs = {k: v for u in ufiles for k, v in u.items() if v}
    names = sorted(set(defs) | {v.get("unit") or k for k, v in defs.items()})
    shared = [(n, v) for n in names for k, v in sorted(defs.items()) if n in (k, v.get("unit"))]
    shared = [(n, v) for n, v in shared if sum(n == m for m, _ in shared) > 1]
    shared = [x for x in shared if x[0] == shared[0][0]]
    for i in range(d(st.integers(2 if shared else 1, 3))):
        a = {"type": d(st.sampled_from(["sensor", "actuator", "attribute"])), "description": "d"}
        dt = d(st.sampled_from(PRIMITIVES))
        if defs and prob(d, 0.9):
            k = d(st.sampled_from(sorted(defs)))
            a["unit"] = d(st.sampled_from([k, defs[k].get("unit") or k]))
            use = defs[k]
            if shared and prob(d, 0.8):
                a["unit"], use = d(st.sampled_from(shared))
            al = [x for y in (use.get("allowed-datatypes") or []) if y in LATTICE for x in sorted(subtypes(y)) if x in PRIMITIVES]
            if al and not prob(d, 0.12):
                dt = d(st.sampled_from(al))
        elif prob(d, 0.15):
            a["unit"] = d(st.sampled_from(UK + list(UN.values()) + ["none"]))
        a["datatype"] = dt + ("[]" if prob(d, 0.2) else "")
        base["V.S%d" % i] = a
    return {
        "ex": d(st.sampled_from(ALL)) if prob(d, 0.3) else "json",
        "q": qfiles, "u": ufiles, "base": base,
        "qopt": d(st.booleans()), "uopt": d(st.booleans()),
        "sub": d(st.booleans()), "decoy": d(st.booleans()),
        "prop": prob(d, 0.15),
    }


def strategy(tier):
    return strategy_()


DECOYQ = {"length": {"definition": "decoy"}, "decoyq": {"definition": "decoy"}, "relative": {"definition": "d"}, "time": {"definition": "d"}, "angle": {"definition": "d"}}
DECOYU = {k: {"definition": "decoy", "unit": UN[k], "quantity": "decoyq", "allowed-datatypes": ["numeric", "string", "boolean"]} for k in UK}


def unit_tables(us):
    """Every reading of the units, as unit definitions without names in common."""
    cands = {}
    for k, v in us.items():
        for name in {k, (v or {}).get("unit") or k}:
            cands.setdefault(name, []).append((v or {}).get("allowed-datatypes") or [])
    names = sorted(cands)
    return [
        {n: {"unit": None, "allowed-datatypes": a} for n, a in zip(names, combo)}
        for combo in itertools.islice(itertools.product(*[cands[n] for n in names]), 64)
    ]


def check(c, box):
    d = "sub/" if c["sub"] else ""
    base = dict(c["base"])
    box.write(d + "root.vspec", dump(base))
    args = ["-s", d + "root.vspec"]
    q, u = c["q"], c["u"]
    qopt = c["qopt"] or len(q) > 1
    uopt = c["uopt"] or len(u) > 1
    if qopt:
        for i, x in enumerate(q):
            box.write("qq/q%d.yaml" % i, dump(x) if x else "")
            args += ["-q", "qq/q%d.yaml" % i]
        if c["decoy"] and q:
            box.write(d + "quantities.yaml", dump(DECOYQ))
    elif q:
        box.write(d + "quantities.yaml", dump(q[0]) if q[0] else "")
    if uopt:
        for i, x in enumerate(u):
            box.write("uu/u%d.yaml" % i, dump(x) if x else "")
            args += ["-u", "uu/u%d.yaml" % i]
        if c["decoy"] and u:
            box.write(d + "units.yaml", dump(DECOYU))
    elif u:
        box.write(d + "units.yaml", dump(u[0]) if u[0] else "")
    if c["decoy"] and c["sub"]:
        box.write("units.yaml", dump(DECOYU))
        box.write("quantities.yaml", dump(DECOYQ))
    probs = []
    qs, us = {}, {}
    for x in q:
        for k, v in x.items():
            if v is None or not isinstance(v.get("definition"), str):
                probs.append("quantity %s malformed" % k)
            if k in qs:
                probs.append("quantity %s redefined" % k)
            qs[k] = v
    for x in u:
        for k, v in x.items():
            if k in us:
                probs.append("unit %s redefined" % k)
            us[k] = v or {}
            if v is None or "unit" not in v or "definition" not in v or "quantity" not in v:
                probs.append("unit %s malformed" % k)
                continue
            if v["quantity"] not in qs:
                probs.append("unit %s: unknown quantity" % k)
            if any(t not in LATTICE for t in v["allowed-datatypes"]):
                probs.append("unit %s: unknown datatype" % k)
    fileprobs = len(probs)
    root = ref.to_tree(base)
    ex = c.get("ex", "json")
    r = box.export(ex, *args, *(["-o", "out.json"] if ex == "json" else out_args(ex)))
    # a name that several units share means one of them, which one is not specified
    tables = unit_tables(us)
    found = [valid.tree_problems(root, (), t) for t in tables]
    found.sort(key=len, reverse=not r.ok)
    probs += found[0]
    if probs:
        if r.ok:
            raise Violation("accepted despite: %s" % probs[:3])
        if outputs(box.tree_listing()):
            raise Violation("output written although rejected: %s" % probs[:3])
    else:
        if not r.ok:
            raise Violation("valid units/quantities rejected: %s" % r.tail())
        if ex == "json":
            with judging("json"):
                msg = ref.diff_flat(ref.flat(root), ref.unnest(box.json("out.json")))
            if msg:
                raise Violation(msg)
    used = any("unit" in a for a in base.values())
    labels = ["shared name" if len(tables) > 1 else "distinct names", "file problem" if fileprobs else "rejected" if probs else "accepted", "-q" if qopt else "default q", "-u" if uopt else "default u", ex]
    return Info(bool(us) and used, labels)
