"""Attribute values are accepted iff they are consistent."""
from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..gen import UNITS, Cfg, common_attrs, emit, gen_types, leaf_attrs, prob, scalar, text
from ..ref import INT_RANGES, PRIMITIVES
from ..runner import Violation, judging

RULE = (
    "One to three signals (plus, in a third of the cases, a generated struct type tree) in a small tree: a generated "
    "consistent definition with 0-2 attributes changed to boundary, wrong-kind or wrong-combination values. "
    "Non-trivial: the definition carries a default, allowed, min/max, arraysize, unit, constUID or fka, or was changed."
)
COUNTS = {"quick": 3600, "thorough": 60000}
CFG = Cfg(ext=0.0, uids=0.15, fka=0.15, text="rich", units=0.5, comments=0.2)
ANY = st.one_of(
    st.sampled_from([0, 1, -1, 127, 128, -128, -129, 255, 256, 2**15, 2**16, -(2**15) - 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, -(2**63), -(2**63) - 1]),
    st.sampled_from([0.0, 1.0, 1.5, -2.5, 1e30]),
    st.booleans(),
    st.sampled_from(["", "a", "1", "true", "on", "Some text."]),
)


def value_kind(x, base):
    """x is a value of the datatype, looking at its kind alone (small values only)"""
    if base in ("boolean", "string"):
        return isinstance(x, bool if base == "boolean" else str)
    if base in ("float", "double", "numeric"):
        return type(x) in (int, float)
    return type(x) is int


def near(base):
    if base in INT_RANGES:
        lo, hi = INT_RANGES[base]
        return st.one_of(st.sampled_from([lo, hi, lo - 1, hi + 1, 0, True, False, 0.5, "x"]), ANY)
    return ANY


def mutate(d, a, structs):
    dt = a.get("datatype", "uint8")
    base = dt[:-2] if dt.endswith("[]") else dt
    v = near(base)
    k = d(st.sampled_from(["default", "default", "allowed", "min", "max", "arraysize", "size", "size", "tail", "datatype", "unit", "constUID", "fka", "text", "flag", "edge", "edge", "allowed+default", "drop", "falsy", "equal", "equal", "equal"]))
    prim = base in PRIMITIVES or base == "numeric"
    if not prim and k in ("default", "allowed", "allowed+default", "falsy", "equal"):
        k = "arraysize"
    if k == "edge":
        # the last value inside and the first outside of an integer range
        base = d(st.sampled_from(sorted(INT_RANGES)))
        lo, hi = INT_RANGES[base]
        v = d(st.sampled_from([lo, lo - 1, hi, hi + 1]))
        for x in ("default", "min", "max", "allowed", "arraysize", "unit"):
            a.pop(x, None)
        where = d(st.sampled_from(["default", "allowed", "array"]))
        a["datatype"] = base + ("[]" if where == "array" else "")
        if where == "default":
            a["default"] = v
        else:
            a["allowed" if where == "allowed" else "default"] = [1, v] if v != 1 else [v]
    elif k == "default":
        a["default"] = d(st.one_of(v, st.lists(v, max_size=4)))
    elif k == "allowed":
        a["allowed"] = d(st.one_of(st.lists(v, min_size=1, max_size=4), st.sampled_from([5, "x", {"a": 1}])))
        if d(st.booleans()):
            a.pop("min", None)
            a.pop("max", None)
            a.pop("default", None)
    elif k == "allowed+default":
        # consistent kinds, membership decided at random
        sv = scalar(base, CFG)
        a.pop("min", None)
        a.pop("max", None)
        pool = d(st.lists(sv, min_size=1, max_size=3))
        a["allowed"] = pool
        e = st.one_of(st.sampled_from(pool), sv)
        a["default"] = d(st.lists(e, min_size=1, max_size=3)) if dt.endswith("[]") else d(e)
        a.pop("arraysize", None)
    elif k == "falsy":
        z = {"string": "", "boolean": False}.get(base, 0)
        o = {"string": ["a", "b"], "boolean": [True]}.get(base, [1, 2])
        a.pop("min", None)
        a.pop("max", None)
        a.pop("arraysize", None)
        a["allowed"] = o + ([z] if d(st.booleans()) else [])
        a["default"] = [z] if dt.endswith("[]") else z
    elif k == "equal":
        # values that are equal but not of the same kind (1, 1.0, true)
        for x in ("min", "max", "arraysize", "default"):
            a.pop(x, None)
        base = d(st.sampled_from(["float", "double", "numeric", "uint8", "int16", "boolean", "string"]))
        ok = [x for x in (1, 1.0, True, 0, 0.0, False, 2, 2.0, "1", "True") if value_kind(x, base)]
        no = [x for x in (1, 1.0, True, 0, 0.0, False, "1", "True") if not value_kind(x, base)]
        a["allowed"] = [ok[d(st.integers(0, len(ok) - 1))] for _ in range(d(st.integers(1, 3)))]
        a.pop("unit", None)
        if prob(d, 0.3):
            same = [x for x in no if x in a["allowed"]] or no
            a["allowed"].append(same[d(st.integers(0, len(same) - 1))])
        a["datatype"] = base + "[]" * dt.endswith("[]")
        if d(st.booleans()):
            same = [x for x in ok if x in a["allowed"]]
            v = d(st.sampled_from(same if prob(d, 0.8) else ok))
            a["default"] = [v] if dt.endswith("[]") else v
    elif k in ("min", "max"):
        a[k] = d(st.one_of(st.sampled_from([0, 1, -5, 2.5, 10**9, "low", [1]])))
    elif k == "arraysize":
        a["arraysize"] = d(st.sampled_from([1, 2, 3, 4, "two", [3]]))
    elif k in ("size", "tail") and prim:
        # arrays: length against arraysize, a single bad element at the end
        a["datatype"] = base + "[]"
        for x in ("min", "max", "allowed", "arraysize"):
            a.pop(x, None)
        good = d(st.lists(scalar(base, CFG), min_size=1, max_size=4))
        if k == "tail":
            good = good + [d(v)]
            if d(st.booleans()):
                a["allowed"] = good if d(st.booleans()) else good[:-1]
        else:
            a["arraysize"] = max(1, len(good) + d(st.sampled_from([-1, 0, 1])))
        a["default"] = good
    elif k == "datatype":
        opts = PRIMITIVES + ["numeric", "uint8[]", "string[]", "boolean[]", "int", "Uint8", "uint8[][]", "uint8 ", "char", "Types", "uint128", "float32", ""]
        opts += [s for s in structs] + [s + "[]" for s in structs] + ["No.Such.Type", (structs[0][:-1] if structs else "X")]
        new = d(st.sampled_from(opts))
        nb = new[:-2] if new.endswith("[]") else new
        if nb not in PRIMITIVES and nb != "numeric":
            for x in ("default", "allowed"):
                a.pop(x, None)
        a["datatype"] = new
    elif k == "unit":
        a["unit"] = d(st.sampled_from(list(UNITS) + ["kilometer", "ISO 8601", "nounit", "Km", "", 5]))
    elif k == "constUID":
        a["constUID"] = d(st.sampled_from(["0x00000000", "0xABCDEF01", "0xabcdef01", "0x1234567", "0x123456789", "12345678", "0xGGGGGGGG", "0X12345678", 4660, ""]))
    elif k == "fka":
        a["fka"] = d(st.sampled_from([["A.B"], ["A.B", "A.C"], "A.B", 5, [5], {"a": 1}]))
    elif k == "text":
        a[d(st.sampled_from(["description", "comment", "deprecation"]))] = d(st.sampled_from([5, 1.5, True, ["x"], {"a": 1}, "fine", "", "5"]))
    elif k == "flag":
        a[d(st.sampled_from(["delete", "instantiate"]))] = d(st.sampled_from([True, False, "maybe", [1], "x"]))
        a.pop("x", None)
    elif k == "drop":
        a.pop(d(st.sampled_from(["datatype", "description", "type"])), None)


@st.composite
def strategy_(draw):
    d = draw
    m = {"base": {"V": {"type": "branch", "description": "root"}, "V.B": {"type": "branch", "description": "b"}}, "types": None}
    structs = []
    if prob(d, 0.3):
        m["types"], structs = gen_types(d, CFG)
    changed = False
    n = d(st.sampled_from([1, 1, 2, 3]))
    for i in range(n):
        a = leaf_attrs(d, CFG, None, structs)
        for _ in range(d(st.sampled_from([0, 1, 1, 1, 2])) if i == 0 else 0):
            mutate(d, a, structs)
            changed = True
        m["base"]["V.B.S%d" % i] = a
    if prob(d, 0.1):
        # the same attributes on a struct property
        if m["types"]:
            s = structs[0]
            a = leaf_attrs(d, CFG, None, [], kinds=("property",))
            mutate(d, a, [])
            m["types"][s + ".Extra"] = a
            changed = True
    return {"m": m, "changed": changed}


def strategy(tier):
    return strategy_()


def check(c, box):
    m = c["m"]
    args = emit(box, m)
    r = box.export("json", *args, "-o", "out.json")
    tt = None
    structs = ref.struct_names(ref.to_tree(m["types"])) if m["types"] else []
    probs = []
    if m["types"]:
        tt = ref.to_tree(m["types"])
        probs += valid.tree_problems(tt, structs, UNITS)
    root = ref.to_tree(m["base"])
    probs += valid.tree_problems(root, structs, UNITS)
    if probs:
        if r.ok:
            raise Violation("an inconsistent model was accepted: %s" % "; ".join(probs[:3]))
        if box.exists("out.json"):
            raise Violation("an output was written for a rejected model: %s" % "; ".join(probs[:3]))
    else:
        if not r.ok:
            raise Violation("a consistent model was rejected: %s" % r.tail())
        with judging("json export"):
            ref.prune(root)
            got = box.json("out.json")
            got.pop("ComplexDataTypes", None)
            msg = ref.diff_flat(ref.flat(root, structs), ref.unnest(got))
            if msg:
                raise Violation(msg)
    keys = set()
    for k, a in m["base"].items():
        keys |= set(a)
    rich = keys & {"default", "allowed", "min", "max", "arraysize", "unit", "constUID", "fka"}
    labels = ["rejected" if probs else "accepted"] + ["has:" + k for k in sorted(rich)]
    labels += ["why:" + p.split(": ", 1)[1].split(" %")[0][:24] for p in probs[:1]]
    return Info(bool(rich) or c["changed"], labels)
