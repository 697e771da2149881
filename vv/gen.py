"""Hypothesis generators for signal models (all cases are JSON-able)."""
import re

from hypothesis import strategies as st

from .ref import INT_RANGES, PRIMITIVES

BRANCHES = ["Cabin", "Door", "Seat", "Body", "Adas", "A", "AB", "B", "Ab", "A1", "Powertrain", "Rowing", "X", "Axle"]
LEAVES = ["Speed", "Temp", "Mode", "Angle", "Position", "Speeds", "Level", "C", "CD", "D", "C1", "Cd", "Torque", "Ver"]
ROOTS = ["Vehicle", "A", "V", "Car", "Vehicle1"]
INST_RANGES = ["Row", "Pos", "Zone", "Sens"]
INST_LISTS = [["Left", "Right"], ["Front", "Rear"], ["DriverSide", "Middle", "PassengerSide"], ["Low", "High"], ["Only"], ["Up", "Down"], ["I1", "I2"],
              ["Row1", "RowTwo"], ["Left", "LeftUpper", "Right"]]
DATE = "2019-07-31"
SET = ["seta", "setb", "setc", "setd"]
SET_TEXT = re.compile(r"(?m)^( *[\w-]+):\n" + "".join(r" *- %s\n" % x for x in SET))
EXT = ["source", "quality", "vendorId", "x-note", "ext1"]

PLAIN_TEXT = ["Some text.", "Speed of it", "Value for all", "a", "Second text", "Long text " + "with many words " * 3 + "end.", "OK 42"]
RICH_CHARS = "abcXYZ 019.,:;!?'\"\\/-_()[]{}<>&%$@*+=~|^`\u00c9\u00e9\u00df\u6f22\u00b0\U0001f600\t\n#"
RICH_TEXT = [
    'say "hi", ok',
    "a: b",
    "comma, separated; semi",
    "# not a comment",
    "see\n#include nowhere.vspec\nfor more",
    "line one\nline two",
    "  padded  ",
    "null",
    "123",
    "true",
    "-",
    "caf\u00e9 \u6f22\u5b57",
    "\u00c4RGER",
    "%d {x} \\n",
    "1.0",
    "~",
    "",
]

UNITS = {
    "km": {"definition": "Distance", "unit": "kilometer", "quantity": "length", "allowed-datatypes": ["numeric"]},
    "percent": {"definition": "Relative", "unit": "percent", "quantity": "relative", "allowed-datatypes": ["numeric"]},
    "km/h": {"definition": "Speed", "unit": "kilometer per hour", "quantity": "length", "allowed-datatypes": ["numeric"]},
    "s": {"definition": "Time", "unit": "second", "quantity": "time", "allowed-datatypes": ["uint32", "float"]},
    "iso8601": {"definition": "Date", "unit": "ISO 8601", "quantity": "time", "allowed-datatypes": ["string"]},
    "cnt": {"definition": "Count", "unit": None, "quantity": "relative", "allowed-datatypes": ["uint8", "int16"]},
}
QUANTITIES = {
    "length": {"definition": "Linear extent"},
    "relative": {"definition": "Relation", "comment": "c"},
    "time": {"definition": "Duration", "remark": "r"},
}

_ORDER = ["8", "16", "32", "64"]


def subtypes(base):
    """Datatypes covered by `base` according to the datatype lattice."""
    if base == "numeric":
        return set(INT_RANGES) | {"float", "double", "numeric"}
    for p in ("uint", "int"):
        if base.startswith(p) and base[len(p):] in _ORDER:
            return {p + b for b in _ORDER[: _ORDER.index(base[len(p):]) + 1]}
    return {base}


def unit_ok(unit_def, dt):
    b = dt[:-2] if dt.endswith("[]") else dt
    return any(b in subtypes(a) for a in (unit_def.get("allowed-datatypes") or []))


class Cfg:
    max_nodes = 9
    max_depth = 4
    text = "rich"  # or "plain"
    instances = 0.3
    root_instances = 0.05
    mixed = False
    instantiate = 0.15
    ext = 0.2
    ext_max = 2
    units = 0.35
    arrays = True
    structs = False
    uids = 0.0
    fka = 0.0
    delete = 0.0
    comments = 0.3
    attrs = True
    strict_names = False
    null_ext = False
    datatypes = PRIMITIVES
    roots = ROOTS
    bool_allowed = True
    string_allowed_only = False
    empty_branches = True
    allowed_text = None  # strategy for string enum values
    unit_table = UNITS
    max_types = 6
    aggregate = 0.1
    bulk = 0.03  # many or deeply nested nodes
    nested = 0.12  # structs below structs

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise AttributeError(k)
            setattr(self, k, v)


def text(cfg):
    if cfg.text == "plain":
        return st.sampled_from(PLAIN_TEXT)
    return st.one_of(st.sampled_from(PLAIN_TEXT), st.sampled_from(RICH_TEXT), st.text(RICH_CHARS, max_size=12))


def prob(d, p):
    """Boolean with probability about p; shrinks to False."""
    if p <= 0:
        return False
    if p >= 1:
        return True
    return d(st.integers(0, 99)) >= 100 - int(p * 100)


FLOATS = [0.0, 1.5, -2.25, 0.1, 100.0, 1e10, -1e-7, 3.14159, 1e300, 0, 1, -7, 1000000]


def scalar(base, cfg):
    if base in INT_RANGES:
        lo, hi = INT_RANGES[base]
        return st.one_of(st.sampled_from(sorted({lo, lo + 1, 0, 1, 5, hi - 1, hi})), st.integers(lo, hi))
    if base in ("float", "double", "numeric"):
        return st.sampled_from(FLOATS)
    if base == "boolean":
        return st.booleans()
    if cfg.allowed_text is not None:
        return cfg.allowed_text
    return text(cfg)


def _key(v):
    return (repr(v), type(v).__name__)


def name_from(d, pool, used, avoid=()):
    for _ in range(6):
        n = d(st.one_of(st.sampled_from(pool), st.sampled_from(pool), st.from_regex(r"\A[A-Z][A-Za-z0-9]{0,5}\Z")))
        if n not in used and n not in avoid and not n.startswith(tuple(INST_RANGES)):
            return n
    i = 2
    while "N%d" % i in used:
        i += 1
    return "N%d" % i


ALL_INST = {x for lv in INST_LISTS for x in lv}


def common_attrs(d, cfg, a):
    if prob(d, cfg.comments):
        a["comment"] = d(text(cfg))
    if prob(d, cfg.comments * 0.4):
        a["deprecation"] = d(text(cfg))
    if cfg.uids and prob(d, cfg.uids):
        a["constUID"] = "0x%08X" % d(st.integers(0, 2**32 - 1))
    if cfg.fka and prob(d, cfg.fka):
        a["fka"] = d(st.lists(st.sampled_from(["A.Old", "A.B.Older", "Vehicle.Old", "Old", "V.X.Old2", "A.Old3", "V.A, V.B"]), min_size=1, max_size=2, unique=True))
    if cfg.ext and prob(d, cfg.ext):
        for k in d(st.lists(st.sampled_from(EXT), min_size=1, max_size=cfg.ext_max, unique=True)):
            a[k] = d(ext_value(cfg))
    return a


def ext_map():
    """nested maps that share keys"""
    leaf = st.integers(0, 9)
    inner = st.dictionaries(st.sampled_from(["k1", "k2"]), leaf, min_size=1, max_size=2)
    return st.dictionaries(st.sampled_from(["k1", "k2", "type"]), st.one_of(leaf, leaf, inner), min_size=1, max_size=2)


def ext_value(cfg):
    opts = [text(cfg), st.integers(-5, 10**12), st.booleans(), st.sampled_from([1.5, -0.25]),
            st.lists(st.integers(0, 9), min_size=1, max_size=3),
            ext_map(),
            st.just(DATE), st.just(SET), st.just({}), st.just("")]
    if cfg.null_ext:
        opts += [st.none(), st.just([])]
    return st.one_of(*opts)


def leaf_attrs(d, cfg, name=None, structs=(), kinds=("sensor", "actuator", "attribute"), dt=None):
    a = {"type": d(st.sampled_from(kinds))}
    if dt is None:
        if structs and prob(d, 0.4):
            dt = d(st.sampled_from(list(structs)))
        else:
            dt = d(st.sampled_from(cfg.datatypes))
        if cfg.strict_names and dt == "boolean" and not (name or "").startswith(("Is", "Has")):
            dt = "uint8"
        if cfg.arrays and prob(d, 0.25):
            dt += "[]"
    a["datatype"] = dt
    a["description"] = d(text(cfg))
    arr = dt.endswith("[]")
    base = dt[:-2] if arr else dt
    prim = base in PRIMITIVES or base == "numeric"
    common_attrs(d, cfg, a)
    if not cfg.attrs or not prim:
        if arr and prob(d, 0.3):
            a["arraysize"] = d(st.integers(1, 4))
        return a
    numeric = base in INT_RANGES or base in ("float", "double", "numeric")
    val = scalar(base, cfg)
    kind = d(st.sampled_from(["none", "none", "range", "allowed"]))
    if kind == "range" and not numeric:
        kind = "none"
    if kind == "allowed" and base == "boolean" and not cfg.bool_allowed:
        kind = "none"
    if kind == "allowed" and cfg.string_allowed_only and base != "string":
        kind = "none"
    pool = None
    if kind == "range":
        lo, hi = sorted([d(val), d(val)])
        which = d(st.sampled_from(["both", "min", "max"]))
        if which != "max":
            a["min"] = lo
        if which != "min":
            a["max"] = hi
    elif kind == "allowed":
        pool = d(st.lists(val, min_size=1, max_size=4, unique_by=_key))
        if base in INT_RANGES and prob(d, 0.06):
            pool = list(range(d(st.integers(9, 24)), 0, -1))
        a["allowed"] = pool
    if arr and prob(d, 0.3):
        a["arraysize"] = d(st.integers(1, 4))
    if prob(d, 0.3):
        v = st.sampled_from(pool) if pool else val
        if kind == "range":
            cand = [x for x in (a.get("min"), a.get("max")) if x is not None]
            v = st.sampled_from(cand)
        if arr:
            n = a.get("arraysize")
            a["default"] = d(st.lists(v, min_size=n or 1, max_size=n or 3))
        else:
            a["default"] = d(v)
    if prob(d, cfg.units):
        us = []
        for k, u in cfg.unit_table.items():
            if unit_ok(u, base):
                us.append(k)
                if u["unit"]:
                    us.append(u["unit"])
        if us:
            a["unit"] = d(st.sampled_from(us))
    return a


def branch_attrs(d, cfg):
    return common_attrs(d, cfg, {"type": "branch", "description": d(text(cfg))})


def instances_value(d, mixed=False):
    """A documented `instances` declaration with few names."""
    def rng():
        p = d(st.sampled_from(INST_RANGES))
        lo = d(st.sampled_from([1, 1, 1, 0, 2, 9] * 3 + [98, 99]))
        hi = lo + d(st.integers(0, 2))
        suf = d(st.sampled_from(["", "", "", "X"]))
        if mixed and prob(d, 0.08):
            p, suf = d(st.sampled_from([("Row-", ""), ("R o", "w"), ("", "X")]))
        return "%s[%s%d,%d]%s" % (p, "0" * (mixed and prob(d, 0.05)), lo, hi, suf)

    form = d(st.sampled_from(["range", "names", "range_list", "levels", "levels", "nested1", "levels3", "nested_range"] + ["mixed"] * 2 * mixed))
    if form == "range":
        return rng()
    names = d(st.sampled_from(INST_LISTS))
    if form == "names":
        return list(names)
    if form == "range_list":
        return [rng()]
    if form == "mixed":
        # plain names before and after ranges or nested lists
        out = [["Mid"], "Far", "Near", rng(), ["Top", "Low"], rng() + "Y"]
        if prob(d, 0.15):
            out += [["MID", "Mid"], "far"]  # names that differ in case only
        return d(st.lists(st.sampled_from(out), min_size=2, max_size=4, unique_by=repr))
    if form == "nested1":
        return [list(names)]
    if form == "nested_range":  # a range is a name of a nested list too
        return [[rng()] + ["Mid"] * d(st.booleans())] + [list(names)] * prob(d, 0.4)
    if form == "levels":
        return [rng(), list(names)] if d(st.booleans()) else [list(names), rng()]
    other = d(st.sampled_from([["Top", "Bottom"], ["Inner"], ["N1", "N2"]]))
    return [rng(), list(names), list(other)]


def level_count(inst):
    from .ref import instance_forest

    def leaves(f):
        return sum(leaves(x) for x in f.values()) if f else 1

    return leaves(instance_forest(inst))


def gen_nodes(d, cfg, structs=(), root=None):
    """An (almost always) valid flat signal model, parents before children."""
    root = root or d(st.sampled_from(cfg.roots))
    nodes = {root: branch_attrs(d, cfg)}
    info = {root: {"depth": 0, "used": set(), "mult": 1}}
    budget = [24]

    def maybe_instances(fqn, p):
        if p and prob(d, p):
            inst = instances_value(d, cfg.mixed)
            k = level_count(inst)
            if info[fqn]["mult"] * k <= budget[0]:
                nodes[fqn]["instances"] = inst
                if prob(d, cfg.aggregate):
                    nodes[fqn]["aggregate"] = True
                info[fqn]["mult"] *= k

    maybe_instances(root, cfg.root_instances if cfg.instances else 0)
    n = d(st.integers(1, cfg.max_nodes))
    for _ in range(n):
        cands = [k for k in info if info[k]["depth"] < cfg.max_depth]
        parent = cands[d(st.integers(0, len(cands) - 1))]
        pi = info[parent]
        if pi["depth"] + 1 < cfg.max_depth and d(st.integers(0, 2)) == 2:
            nm = name_from(d, BRANCHES, pi["used"], ALL_INST)
            pi["used"].add(nm)
            fqn = parent + "." + nm
            nodes[fqn] = branch_attrs(d, cfg)
            info[fqn] = {"depth": pi["depth"] + 1, "used": set(), "mult": pi["mult"]}
            maybe_instances(fqn, cfg.instances)
        else:
            pool = LEAVES
            if cfg.strict_names:
                pool = LEAVES + ["IsOn", "HasX", "IsOpen"]
            nm = name_from(d, pool, pi["used"], ALL_INST)
            pi["used"].add(nm)
            fqn = parent + "." + nm
            nodes[fqn] = leaf_attrs(d, cfg, nm, structs)
        if nodes.get(parent, {}).get("instances") and cfg.instantiate and prob(d, cfg.instantiate):
            nodes[fqn]["instantiate"] = False
    if not cfg.empty_branches:
        for k in list(info):
            if not any(f.startswith(k + ".") for f in nodes):
                nm = name_from(d, LEAVES, info[k]["used"], ALL_INST)
                nodes[k + "." + nm] = leaf_attrs(d, cfg, nm, structs)
    if prob(d, cfg.bulk) and info[root]["mult"] == 1:
        more = bulk_nodes(d, cfg, root)
        if d(st.booleans()):
            return {root: nodes.pop(root), **more, **nodes}
        nodes.update(more)
    return nodes


def bulk_nodes(d, cfg, root):
    """Many siblings or a long chain of branches, with plain attributes."""
    out = {}
    leaf = {"type": "sensor", "datatype": "uint8", "description": "bulk"}
    shape, n = d(st.sampled_from([("deep", 8), ("wide", 40), ("deep", 12), ("wide", 90), ("both", 70)]))
    f = root
    if shape != "wide":
        for i in range(min(n, 12)):
            f += ".Deep%d" % i
            out[f] = {"type": "branch", "description": "deep %d" % i}
            if i % 3 == 2:
                out[f + ".Beside"] = dict(leaf)
        out[f + ".Bottom"] = dict(leaf)
    if shape != "deep":
        for i in range(n):
            if i % 45 == 0:
                g = "%s.Bulk%d" % (f, i // 45)
                out[g] = {"type": "branch", "description": "bulk %d" % (i // 45)}
            out["%s.Item%d" % (g, i)] = {**leaf, "datatype": ["uint8", "float", "string"][i % 3]}
    return out


TROOTS = ["Types", "VehicleDataTypes", "T"]
STRUCTS = ["Pos", "PosExt", "Time", "Item", "P", "Tim"]
PROPS = ["x", "y", "Lat", "Lon", "Val", "P", "q1"]


def gen_types(d, cfg, root=None):
    """A valid flat types tree; returns (nodes, full struct names)."""
    root = root or d(st.sampled_from(TROOTS))
    nodes = {root: {"type": "branch", "description": d(text(cfg))}}
    branches = [root]
    deep = prob(d, 0.25)
    for nm in d(st.lists(st.sampled_from(["A", "AB", "Nav", "B"]), max_size=6 if deep else 2, unique=not deep)):
        p = branches[-1] if deep and d(st.booleans()) else d(st.sampled_from(branches))
        f = p + "." + nm
        if f not in nodes:
            nodes[f] = {"type": "branch", "description": d(text(cfg))}
            branches.append(f)
    if deep and d(st.booleans()):
        # namespaces that differ in the middle only
        for x in ("A", "B"):
            for f in (root + "." + x, root + "." + x + ".In"):
                if f not in nodes:
                    nodes[f] = {"type": "branch", "description": d(text(cfg))}
                    branches.append(f)
        branches += [root + ".A.In", root + ".B.In"] * 2
    structs = []
    for nm in d(st.lists(st.sampled_from(STRUCTS), min_size=1, max_size=cfg.max_types, unique=False)):
        p = d(st.sampled_from(structs if structs and cfg.nested and prob(d, cfg.nested) else branches))
        f = p + "." + nm
        if f not in nodes:
            nodes[f] = common_attrs(d, cfg, {"type": "struct", "description": d(text(cfg))})
            structs.append(f)
    from .ref import Invalid, resolve_type

    pcfg = cfg
    for i, s in enumerate(structs):
        props = d(st.lists(st.sampled_from(PROPS), min_size=1, max_size=3, unique=True))
        for pn in props:
            f = s + "." + pn
            if f in nodes:  # a struct of that name
                continue
            refs = []
            for t in structs[:i]:  # acyclic
                refs.append(t)
                short = t.rsplit(".", 1)[1]
                try:
                    if resolve_type(short, f, structs) == t:
                        refs.append(short)
                except Invalid:
                    pass
            nodes[f] = leaf_attrs(d, pcfg, pn, refs, kinds=("property",))
    return nodes, structs


@st.composite
def models(draw, cfg):
    m = {"base": None, "types": None}
    structs = []
    if cfg.structs and prob(draw, cfg.structs if isinstance(cfg.structs, float) else 0.6):
        m["types"], structs = gen_types(draw, Cfg(**{**cfg.__dict__, "ext": 0.0, "instances": 0.0}))
    m["base"] = gen_nodes(draw, cfg, structs)
    return m


# ---------------------------------------------------------------- emission
def dump(data):
    import yaml

    D = getattr(yaml, "CSafeDumper", yaml.SafeDumper)
    try:
        t = yaml.dump(data, Dumper=D, sort_keys=False, allow_unicode=True, default_flow_style=False, width=200)
    except UnicodeEncodeError:
        t = yaml.dump(data, Dumper=yaml.SafeDumper, sort_keys=False, allow_unicode=True, default_flow_style=False, width=200)
    # extended attributes: a date and a set (spelled without quotes and with a tag)
    t = t.replace("'%s'" % DATE, DATE)
    return SET_TEXT.sub(lambda g: "%s: !!set {%s}\n" % (g[1], ", ".join(SET)), t)


def emit_units(box, units=None, quantities=None, d=""):
    box.write(d + "units.yaml", dump(UNITS if units is None else units))
    box.write(d + "quantities.yaml", dump(QUANTITIES if quantities is None else quantities))


def emit(box, m, overlays=(), root="root.vspec"):
    """Writes a model; returns the command line arguments selecting it."""
    emit_units(box, m.get("units"), m.get("quantities"))
    box.write(root, dump(m["base"]))
    args = ["-s", root]
    for i, o in enumerate(overlays):
        box.write("overlay%d.vspec" % i, dump(o))
        args += ["-l", "overlay%d.vspec" % i]
    if m.get("types"):
        box.write("types.vspec", dump(m["types"]))
        args += ["-t", "types.vspec"]
    return args


def types_tree(m):
    from . import ref

    return ref.to_tree(m["types"]) if m.get("types") else None
