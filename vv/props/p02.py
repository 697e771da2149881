"""Overlays are merged attribute by attribute, the last one wins."""
from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..exporters import ALL, same_as_flat
from ..gen import EXT, LEAVES, UNITS, Cfg, emit, ext_map, ext_value, gen_nodes, leaf_attrs, models, prob, text
from ..runner import Violation, judging

RULE = (
    "A generated model and 1-4 overlays, each a list of edits: redefine a signal completely or partly, patch texts, "
    "reset optional attributes with null, change or add (nested) extra attributes, add nodes and branches, also with "
    "the intermediate branch missing; for one case in four another of the 14 exporters has to make the same of it as of the merged file. Non-trivial: at least one overlay entry touches an existing node."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(max_nodes=6, max_depth=3, instances=0.15, ext=0.3, instantiate=0.1, fka=0.2, uids=0.1)
OPT = ["min", "max", "allowed", "default", "unit", "comment", "deprecation", "arraysize"]


@st.composite
def strategy_(draw):
    d = draw
    base = gen_nodes(d, CFG)
    known = dict(base)
    overlays = []
    for i in range(d(st.integers(1, 4))):
        ov = {}
        for j in range(d(st.integers(1, 3))):
            keys = list(known)
            k = keys[d(st.integers(0, len(keys) - 1))]
            a = known[k]
            leaf = a.get("type") != "branch"
            op = d(st.sampled_from(["text", "redefine", "redefine", "null", "ext", "add", "addbranch", "gap", "partial", "kind", "fka", "uid", "aggregate"]))
            if op in ("redefine", "null", "partial", "kind") and not leaf:
                op = "text"
            if op in ("add", "addbranch", "gap") and leaf:
                k = k.rsplit(".", 1)[0]
                if known.get(k, {}).get("type") != "branch":
                    op, k = "text", keys[0]
            if op == "text":
                p = {d(st.sampled_from(["description", "comment", "deprecation"])): d(text(CFG))}
                if prob(d, 0.5):
                    p["type"] = known[k].get("type", "branch")
            elif op == "redefine":
                p = leaf_attrs(d, CFG, None)
                for o in OPT:
                    if o not in p and o in a and a[o] is not None and prob(d, 0.85):
                        p[o] = None
            elif op == "partial":
                p = leaf_attrs(d, CFG, None)
                for o in list(p):
                    if prob(d, 0.6):
                        del p[o]
                if not p:
                    p = {"description": "partial"}
            elif op == "kind":
                p = {"type": d(st.sampled_from(["sensor", "actuator", "attribute"]))}
            elif op == "null":
                p = {d(st.sampled_from(OPT)): None for _ in range(2)}
            elif op == "ext":
                maps = [x for x in EXT if isinstance(a.get(x), dict)]
                if maps:  # maps are merged
                    p = {d(st.sampled_from(maps)): d(st.one_of(ext_map(), ext_map(), ext_value(CFG)))}
                elif prob(d, 0.4):
                    p = {d(st.sampled_from(EXT[:2])): d(ext_map())}
                else:
                    p = {d(st.sampled_from(EXT)): d(ext_value(CFG))}
            elif op == "fka":
                p = {"fka": d(st.sampled_from([[], ["A.New"], ["A.New", "A.Old"], "A.New", ["A.Old"]]))}
            elif op == "uid":
                p = {"constUID": d(st.sampled_from([None, "0x12345678", "0xabcdef01"]))}
            elif op == "aggregate":
                p = {"aggregate": d(st.booleans()), "description": "aggregate"} if not leaf else {"description": "leaf"}
            elif op == "add":
                k = k + "." + d(st.sampled_from(LEAVES + ["New"]))
                p = leaf_attrs(d, CFG, None)
                if k in known and known[k].get("type") == "branch":
                    p = {"description": "kept"}
            elif op == "addbranch":
                k = k + "." + d(st.sampled_from(["NewB", "NewB2"]))
                ov[k] = {"type": "branch", "description": "new branch"}
                known[k] = ov[k]
                k = k + ".Leaf"
                p = leaf_attrs(d, CFG, None)
            else:
                up, n = k.rpartition(".")[::2]
                k = k + ".Gap." if not up or prob(d, 0.7) else up + "." + d(st.sampled_from([n.upper(), n.lower(), n + "x"])) + "."
                k += d(st.sampled_from(LEAVES))
                p = leaf_attrs(d, CFG, None)
            ov[k] = ref.merge_values(ov.get(k, {}), p)
            known[k] = ref.merge_values(known.get(k, {}), p)
        if prob(d, 0.3):
            # entries in another order
            ov = dict(d(st.permutations(list(ov.items()))))
        overlays.append(ov)
    return {"base": base, "overlays": overlays, "expand": not prob(d, 0.3), "other": d(st.sampled_from(ALL)) if prob(d, 0.25) else None}


def strategy(tier):
    return strategy_()


def check(c, box):
    m = {"base": c["base"]}
    args = emit(box, m, c["overlays"]) + ["--extend-all-attributes", "-o", "out.json"]
    if not c["expand"]:
        args.append("--no-expand")
    r = box.export("json", *args)
    tree = None
    try:
        tree = ref.build([c["base"]] + c["overlays"], c["expand"])
        probs = valid.tree_problems(tree, (), UNITS)
    except ref.Invalid as e:
        probs = [str(e)]
    touched = any(k in c["base"] for o in c["overlays"] for k in o)
    labels = ["overlays:%d" % len(c["overlays"]), "rejected" if probs else "accepted"]
    if probs:
        if r.ok:
            raise Violation("merged model is inconsistent but was accepted: %s" % "; ".join(probs[:3]))
        return Info(touched, labels)
    if not r.ok:
        raise Violation("merged model is consistent but was rejected: %s" % r.tail())
    with judging("json export"):
        msg = ref.diff_flat(ref.flat(tree), ref.unnest(box.json("out.json")))
    if msg:
        raise Violation("overlay result differs: " + msg)
    if c.get("other") and c["overlays"]:
        if same_as_flat(box, c["other"], args[: args.index("--extend-all-attributes")], ref.merge_layers([c["base"]] + c["overlays"])):
            labels.append("also " + c["other"])
    return Info(touched, labels)
