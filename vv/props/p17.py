"""Static UIDs are the documented hash of exactly the documented attributes."""
from hypothesis import strategies as st

from .. import ids, ref
from ..engine import Info
from ..gen import Cfg, emit, models, prob, text, types_tree
from ..runner import Violation, judging

RULE = (
    "Generated models with all attributes (units, ranges with 0 and negative bounds, enums of every type, fka lists and "
    "strings, constUID, instances, struct datatypes, non-ASCII text), exported by id with and without --case-sensitive, "
    "compared with an independent FNV-1 implementation; then one attribute of one node changes and exactly that node's "
    "UID may change. Non-trivial: more than three nodes."
)
COUNTS = {"quick": 1800, "thorough": 30000}
CFG = Cfg(structs=0.25, uids=0.1, fka=0.15, max_nodes=8, ext=0.1, instances=0.3)
IRRELEVANT = ["description", "comment", "deprecation", "default", "source"]
RELEVANT = ["unit", "datatype", "type", "min", "max", "allowed", "fka", "constUID"]


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(CFG))
    base = m["base"]
    for a in base.values():
        if a.get("fka") and d(st.booleans()):
            a["fka"] = a["fka"][0]
    if prob(d, 0.1):
        # only ASCII letters have a lower case
        a = base[d(st.sampled_from(list(base)))]
        if "allowed" not in a and a.get("datatype", "").startswith("string") and not set(a) & {"default", "unit"}:
            a["allowed"] = d(st.sampled_from([["\u00c4RGER", "\u00e4rger"], ["\u00c9t\u00c9"], [""], ["", "X"]]))
        else:
            a["fka"] = d(st.sampled_from(["V.\u00c4LT\u00dc", ["V.\u00e4lt\u00fc"], ["V.\u00dcber.X"]]))
    change = None
    leaves = [k for k, a in base.items() if a["type"] != "branch"]
    if d(st.booleans()):
        k = d(st.sampled_from(list(base)))
        at = d(st.sampled_from(IRRELEVANT + RELEVANT))
        a = base[k]
        new = None
        if at in ("description", "comment", "deprecation"):
            new = "changed text"
        elif at == "source":
            new = {"any": 1}
        elif at == "constUID":
            new = "0x%08X" % d(st.integers(0, 2**32 - 1))
        elif at == "fka":
            new = d(st.sampled_from([["V.Former"], "V.Former", ["V.Former", "V.Other"], ["V.former"], "V.\u00c4LT\u00dc", ["V.\u00e4lt\u00fc"], "V.A, V.B", ["V.A,V.B"]]))
        elif k in leaves:
            if at == "type":
                new = d(st.sampled_from(["sensor", "actuator", "attribute"]))
            elif at == "datatype" and not (set(a) & {"unit", "default", "allowed"}):
                new = d(st.sampled_from(["uint8", "uint16", "float"])) + ("[]" if a["datatype"].endswith("[]") else "")
            elif at in ("min", "max") and "allowed" not in a:
                new = d(st.sampled_from([0, 1, -1, 0.5, 0.0, -0.0, 1.0, 1e20]))
            elif at == "allowed" and a.get("allowed") and "default" not in a:
                new = list(reversed(a["allowed"])) if len(a["allowed"]) > 1 else None
            elif at == "unit" and a.get("unit") in ("km", "kilometer"):
                new = "percent"
            elif at == "default":
                al = a.get("allowed")
                if al and not a["datatype"].endswith("[]"):
                    new = al[-1]
        if new is not None:
            change = [k, at, new]
    return {"m": m, "cs": d(st.booleans()), "expand": not prob(d, 0.2), "change": change}


def strategy(tier):
    return strategy_()


def one(c, m, box, out):
    args = emit(box, m)
    args += ["--case-sensitive"] if c["cs"] else []
    args += [] if c["expand"] else ["--no-expand"]
    r = box.export("id", *args, "-o", out)
    tt = types_tree(m)
    structs = ref.struct_names(tt)
    tree = ref.build([m["base"]], c["expand"])
    want = ids.expected(tree, structs, c["cs"])
    coll = ids.collisions(want)
    if coll:
        if r.ok:
            raise Violation("colliding UIDs accepted: %s" % coll[:2])
        return None, tree
    if not r.ok:
        raise Violation("id export rejected a valid model without collisions: %s" % r.tail())
    with judging("id"):
        got = box.yaml(out)
        msg = ref.diff_flat(want, got)
        if msg:
            raise Violation("id export: " + msg)
    return {k: v["staticUID"] for k, v in got.items()}, tree


def check(c, box):
    u1, tree = one(c, c["m"], box, "one.yaml")
    labels = ["case-sensitive" if c["cs"] else "default"]
    if u1 is None:
        return Info(False, ["collision"])
    if c["change"]:
        k, at, new = c["change"]
        base = {x: dict(a) for x, a in c["m"]["base"].items()}
        base[k][at] = new
        from .. import valid
        from ..gen import UNITS

        tt = types_tree(c["m"])
        t2 = ref.build([base], c["expand"])
        if not valid.tree_problems(t2, ref.struct_names(tt), UNITS):
            u2, _ = one(c, {**c["m"], "base": base}, box, "two.yaml")
            if u2 is not None and at in IRRELEVANT and u2 != u1:
                raise Violation("changing %s of %s changes UIDs" % (at, k))
            labels.append("changed:" + at)
    return Info(sum(1 for _ in tree.walk()) > 3, labels)
