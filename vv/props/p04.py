"""Entries for one instance refine that instance only and win over common data."""
from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..gen import EXT, LEAVES, UNITS, Cfg, emit, ext_value, gen_nodes, leaf_attrs, prob, text
from ..runner import Violation, judging
from .p03 import ensure_instances

RULE = (
    "Models with (nested, multi-level) instance branches plus 1-2 overlays whose entries address concrete instance "
    "paths at any level: override a common signal fully or in single attributes, add signals or branches to one "
    "instance, describe the instance branch itself; together with overlay entries for the common (unexpanded) signals. "
    "Non-trivial: at least one entry addresses an existing instance path."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(mixed=True, max_nodes=6, max_depth=3, instances=0.7, root_instances=0.1, instantiate=0.15, ext=0.25, text="plain", comments=0.4)


def instance_paths(root):
    """All (fqn in expanded tree, node) pairs inside instances."""
    out = []
    for fqn, n in root.walk():
        if n.inst:
            out.append((fqn, n))
    return out


def inner(nodes, fqn, keep=True):
    """The path with all instance names dropped but those of the innermost branch with
    instances (keep=False: with only those dropped): an entry for one inner instance in all
    outer ones, or for all inner ones in one outer."""
    parts = fqn.split(".")
    flags = [bool(getattr(nodes.get(".".join(parts[: i + 1])), "inst", False)) for i in range(len(parts))]
    run = [max((i for i, x in enumerate(flags) if x), default=-1)]
    while run[0] > 0 and flags[run[0] - 1]:
        run.insert(0, run[0] - 1)
    drop = [i for i, x in enumerate(flags) if x and i not in run] if keep else run
    return ".".join(x for i, x in enumerate(parts) if i not in drop)


OPT = {"comment": ["common", ""], "deprecation": ["v1 old"], "min": [0, 1], "max": [90, 100], "unit": ["km"], "default": [5], EXT[0]: ["common", 0, {"a": 1}, []]}


def nested(d):
    """Instances in instances: the common leaf carries optional attributes, which entries for an
    inner instance (in all outer ones) or for one concrete path replace or take back."""
    root, outer, inn = d(st.sampled_from([("V", "Row", "Seat"), ("V", "A", "A"), ("Vehicle", "Cabin", "Door")]))
    lists = [["I1"], ["I1", "I2"], "Row[1,2]", ["Left", "Right"]]
    o, i = d(st.sampled_from(lists)), d(st.sampled_from(lists))
    leaf = {"type": "sensor", "datatype": "uint8", "description": "common"}
    for k in OPT:
        if prob(d, 0.5):
            leaf[k] = d(st.sampled_from(OPT[k]))
    if not isinstance(leaf.get("min"), int):
        leaf.pop("min", None)
    base = {root: {"type": "branch", "description": "root"}}
    q = "%s.%s" % (root, outer)
    base[q] = {"type": "branch", "description": "outer", "instances": o}
    if prob(d, 0.3):
        q += ".Mid"
        base[q] = {"type": "branch", "description": "mid"}
    base[q + "." + inn] = {"type": "branch", "description": "inner", "instances": i}
    sub = ".Sub" if prob(d, 0.3) else ""
    if sub:
        base[q + "." + inn + sub] = {"type": "branch", "description": "sub"}
    base[q + "." + inn + sub + ".Leaf"] = leaf
    nodes = dict(ref.build([base]).walk())
    leaves = [f for f, n in nodes.items() if n.type != "branch"]
    overlays = []
    for _ in range(d(st.integers(1, 2))):
        ov = {}
        for _ in range(d(st.integers(1, 3))):
            f = leaves[d(st.integers(0, len(leaves) - 1))]
            how = d(st.sampled_from(["inner", "inner", "inner", "concrete", "outer", "common"]))
            if how == "inner":
                f = inner(nodes, f)
            elif how == "common":
                f = q + "." + inn + sub + ".Leaf"
            elif how == "outer":
                f = inner(nodes, f, False)
            p = {"type": "sensor", "datatype": "uint8", "description": "specific"} if prob(d, 0.5) else {}
            for k in OPT:
                if prob(d, 0.4):
                    p[k] = d(st.sampled_from([None, *OPT[k], None]))
            if prob(d, 0.2):
                p["instantiate"] = True
            if f in ov or p:
                ov[f] = {**ov.get(f, {}), **p}
        if ov:
            overlays.append(ov)
    return {"base": base, "overlays": overlays, "hits": 1 if overlays else 0}


@st.composite
def strategy_(draw):
    d = draw
    base = gen_nodes(d, CFG)
    ensure_instances(d, base)
    overlays = []
    hits = 0
    if prob(d, 0.2):
        return nested(d)
    cur = [base]
    for i in range(d(st.integers(1, 2))):
        ov = {}
        tree = ref.build(cur)
        insts = instance_paths(tree)
        nodes = dict(tree.walk())
        for j in range(d(st.integers(1, 3))):
            op = d(st.sampled_from(["override", "override", "partial", "partial", "add", "branch", "describe", "common", "null", "null"]))
            if op == "common" or not insts:
                keys = [k for k, a in base.items()]
                k = keys[d(st.integers(0, len(keys) - 1))]
                p = {d(st.sampled_from(["comment", "description"])): d(st.sampled_from(["common overlay", "other common"]))}
                if prob(d, 0.2) and "." in k:
                    p = {"delete": True}
                ov[k] = ref.merge_values(ov.get(k, {}), p)
                continue
            ifqn, inode = insts[d(st.integers(0, len(insts) - 1))]
            below = [(f, n) for f, n in nodes.items() if f.startswith(ifqn + ".") and n.type != "branch"]
            if op in ("override", "partial", "null") and not below:
                op = "add"
            if op == "override":
                f, n = below[d(st.integers(0, len(below) - 1))]
                p = leaf_attrs(d, CFG, None)
                old = n.attrs
                if (set(p) & {"min", "max", "allowed", "default"}) or (set(old) & {"min", "max", "allowed", "default", "unit", "arraysize"}):
                    # keep the definition consistent: same datatype, only texts and extras
                    p = {"type": old["type"], "datatype": old["datatype"], "description": d(text(CFG))}
                if prob(d, 0.4):
                    p["comment"] = "specific %d" % j
                if prob(d, 0.4):
                    p[d(st.sampled_from(EXT))] = d(ext_value(CFG))
            elif op == "partial":
                f, n = below[d(st.integers(0, len(below) - 1))]
                p = {}
                for _ in range(d(st.integers(1, 2))):
                    x = d(st.sampled_from(["description", "comment", "ext", "type"]))
                    if x == "ext":
                        p[d(st.sampled_from(EXT))] = d(ext_value(CFG))
                    elif x == "type":
                        p["type"] = d(st.sampled_from(["sensor", "actuator", "attribute"]))
                        if d(st.booleans()):
                            p["datatype"] = n.attrs["datatype"]
                    else:
                        p[x] = "specific " + x
            elif op == "null":
                # optional attributes taken back for this instance, by a complete or a partial entry
                f, n = below[d(st.integers(0, len(below) - 1))]
                opt = [x for x in ("comment", "min", "max", "default", "deprecation", *EXT) if x in n.attrs] or ["comment"]
                p = {d(st.sampled_from(opt)): None}
                if d(st.booleans()):
                    p = {"type": n.attrs["type"], "datatype": n.attrs["datatype"], "description": "specific", **p}
            elif op == "describe":
                f = ifqn
                p = {"type": "branch", "description": "instance description"} if d(st.booleans()) else {"comment": "instance comment"}
            elif op == "add":
                bs = [f for f, n in nodes.items() if (f == ifqn or f.startswith(ifqn + ".")) and n.type == "branch"]
                f = bs[d(st.integers(0, len(bs) - 1))] + "." + d(st.sampled_from(["Extra", "Extra2", "New"]))
                p = leaf_attrs(d, CFG, None)
            else:
                f = ifqn + ".ExtraBranch"
                ov[f] = {"type": "branch", "description": "extra branch"}
                f += ".Leaf"
                p = leaf_attrs(d, CFG, None)
            hits += 1
            if prob(d, 0.35):
                f = inner(nodes, f)
            ov[f] = ref.merge_values(ov.get(f, {}), p) if f in ov else p
        overlays.append(ov)
    return {"base": base, "overlays": overlays, "hits": hits}


def strategy(tier):
    return strategy_()


def check(c, box):
    args = emit(box, {"base": c["base"]}, c["overlays"]) + ["--extend-all-attributes", "-o", "out"]
    r = box.export("json", *args)
    try:
        tree = ref.build([c["base"]] + c["overlays"])
        probs = valid.tree_problems(tree, (), UNITS)
        if not probs and not r.ok and valid.tree_problems(ref.build([c["base"]] + c["overlays"], delete=False), (), UNITS):
            # inconsistent only in a branch that is taken out: may be reported or not
            return Info(False, ["inconsistent but deleted"])
    except ref.Invalid as e:
        probs = [str(e)]
    labels = ["hits:%d" % min(c["hits"], 4), "rejected" if probs else "accepted"]
    if probs:
        if r.ok:
            raise Violation("inconsistent result accepted: %s" % probs[:3])
        return Info(False, labels)
    if not r.ok:
        raise Violation("consistent result rejected: %s" % r.tail())
    with judging("json"):
        msg = ref.diff_flat(ref.flat(tree), ref.unnest(box.json("out")))
    if msg:
        raise Violation("instance specific data: " + msg)
    return Info(c["hits"] > 0, labels)
