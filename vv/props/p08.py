"""--strict / --aborts / -e decide exactly as documented."""
from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..exporters import ALL, EXPAND, NO_TYPES, out_args, outputs
from ..gen import EXT, Cfg, dump, emit, gen_nodes, gen_types, leaf_attrs, prob
from ..ref import CORE
from ..runner import Violation, judging

RULE = (
    "Models whose node and instance names mix conforming and non-conforming ones (lower case, digits first, "
    "underscores, non-ASCII, booleans with and without Is/Has), with unknown attributes on signals, branches, struct "
    "types and deleted nodes, given in the base or by an overlay; run with every combination of --strict, -a name-style, "
    "-a unknown-attribute and 0-8 -e whitelist entries, by the JSON or one of the other 13 exporters; every deviation has to be reported in the log. Non-trivial: the model has at least one name or attribute "
    "deviation."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(max_nodes=6, max_depth=3, instances=0.25, ext=0.0, text="plain", strict_names=True, attrs=False)
ODD = ["speed", "Speed_Max", "1Door", "Door-Left", "\u00c4u\u00dfer", "sPeed", "Speed2D", "X", "IsIt", "Hassle", "Island", "isOn", "Flag", "ABC", "S\u00fcd", "A_", "Z9z"]
NEAR = ["vendor", "Id", "sour", "Source", "qualit", "x", "note", "ext", "ext11", "quality,source"]  # parts and spellings of the others


@st.composite
def strategy_(draw):
    d = draw
    base = gen_nodes(d, CFG)
    types = None
    if prob(d, 0.25):
        types, structs = gen_types(d, Cfg(**{**CFG.__dict__, "strict_names": False}))
        if prob(d, 0.3):
            ks = list(types)
            types[ks[d(st.integers(0, len(ks) - 1))]][d(st.sampled_from(EXT))] = 5
    overlay = {}
    for _ in range(d(st.integers(1, 4))):
        what = d(st.sampled_from(["name", "name", "bool", "extra", "extra", "extra", "inst", "branch"]))
        bs = [k for k, a in base.items() if a["type"] == "branch"]
        par = bs[d(st.integers(0, len(bs) - 1))]
        tgt = base if d(st.booleans()) else overlay
        if what == "name":
            tgt[par + "." + d(st.sampled_from(ODD))] = {"type": "sensor", "datatype": "uint8", "description": "n"}
        elif what == "bool":
            dt = d(st.sampled_from(["boolean", "boolean", "boolean", "boolean[]", "string"]))
            tgt[par + "." + d(st.sampled_from(["IsOpen", "HasIt", "Open", "Isolated", "Hash", "ISopen", "AIs", "WasOpen", "CanOpen", "hasIt", "Has", "Is"]))] = {"type": d(st.sampled_from(["sensor", "actuator", "attribute"])), "datatype": dt, "description": "b"}
        elif what == "branch":
            k = par + "." + d(st.sampled_from(ODD))
            tgt[k] = {"type": "branch", "description": "n"}
        elif what == "inst":
            base[par]["instances"] = d(st.sampled_from([["left", "Right"], "row[1,2]", "Row_[1,2]", ["Left", "x"], "Row[1,2]"]))
        else:
            ks = list(base)
            k = ks[d(st.integers(0, len(ks) - 1))]
            tgt.setdefault(k, {})[d(st.sampled_from(EXT + EXT + NEAR))] = d(st.sampled_from([1, "v", None, [], {"a": 1}, False]))
    if prob(d, 0.2):
        ks = [k for k in list(base) + list(overlay) if "." in k]
        if ks:
            k = ks[d(st.integers(0, len(ks) - 1))]
            (base if k in base else overlay)[k]["delete"] = True
    if prob(d, 0.04):
        ks = list(base)
        base[ks[d(st.integers(0, len(ks) - 1))]].update({"many%d" % i: i for i in range(d(st.integers(8, 60)))})
    ex = d(st.sampled_from([e for e in ALL if not (types and e in NO_TYPES)])) if prob(d, 0.4) else "json"
    known = ex != "json" and prob(d, 0.4)
    if known:
        # nothing but whitelisted attributes to complain about
        k = d(st.sampled_from(list(base)))
        base[k][d(st.sampled_from(EXT))] = d(st.sampled_from(["v", 1, True]))
    opts = []
    if known or prob(d, 0.4):
        opts.append("--strict")
    for a in d(st.lists(st.sampled_from(["name-style", "unknown-attribute"]), max_size=2, unique=True)):
        opts += ["-a", a]
    wl = d(st.permutations(EXT)) if known else d(st.lists(st.sampled_from(EXT), max_size=3, unique=True))
    for e in wl:
        opts += ["-e", e]
    return {"ex": ex, "base": base, "types": types, "overlay": overlay, "opts": opts, "wl": wl, "badopt": d(st.sampled_from(sorted(CORE - {"fqn"}) + ["a,b"])) if prob(d, 0.05) else None}


def strategy(tier):
    return strategy_()


def check(c, box):
    args = emit(box, {"base": c["base"], "types": c["types"]}, [c["overlay"]] if c["overlay"] else [])
    ex = c.get("ex", "json")
    args += c["opts"] + (["-o", "out.json"] if ex == "json" else out_args(ex, bool(c["types"])))
    if c["badopt"]:
        r = box.export(ex, *args, "-e", c["badopt"])
        if r.ok or outputs(box.tree_listing()):
            raise Violation("-e %s was accepted although it is no extended attribute name" % c["badopt"])
        return Info(True, ["bad -e"])
    tree = ref.build([c["base"], c["overlay"]])
    probs = valid.tree_problems(tree, ref.struct_names(ref.to_tree(c["types"])) if c["types"] else ())
    if probs:
        return Info(False, ["unmodelled"])
    strict = "--strict" in c["opts"]
    names = valid.name_problems(tree)
    extras = valid.extra_problems(tree, c["wl"])
    reasons = []
    if strict or "name-style" in c["opts"]:
        reasons += names
    if strict or "unknown-attribute" in c["opts"]:
        reasons += extras
    if c["types"]:
        reasons += valid.extra_problems(ref.to_tree(c["types"]), c["wl"])
    if ex not in EXPAND:
        # some of these never expand instances
        flat = ref.build([c["base"], c["overlay"]], False)
        if bool(valid.name_problems(flat)) != bool(names):
            return Info(False, ["unmodelled"])
    r = box.export(ex, *args, level="WARNING")
    lines = r.log.split("\n")
    textras = valid.extra_problems(ref.to_tree(c["types"]), c["wl"]) if c["types"] else []
    # what is reported: names only if they are forbidden, the rest always, up to the first reason to abort
    told = textras
    if not textras:
        names_on = strict or "name-style" in c["opts"]
        told = names if names_on and names else extras
    for x in told if ex == "json" else ():
        fqn, attr = x.split(": ")
        if not any("'%s'" % fqn in ln and (told is names or "'%s'" % attr in ln) for ln in lines):
            raise Violation("%s is not reported with %s: %s" % (x, c["opts"], r.tail()))
    for fqn, n in tree.walk():
        for k in n.attrs:
            if k in c["wl"] and k not in CORE and any("'%s'" % fqn in ln and "'%s'" % k in ln for ln in lines):
                raise Violation("%s of %s is reported although it is whitelisted" % (k, fqn))
    if reasons:
        if r.ok:
            raise Violation(ex + " accepted with %s despite %s" % (c["opts"], reasons[:3]))
        if outputs(box.tree_listing()):
            raise Violation("output written although rejected: %s" % reasons[:3])
    else:
        if not r.ok and names and ex != "json":
            # not every name can be written in every format
            return Info(False, ["unmodelled"])
        if not r.ok:
            raise Violation(ex + " rejected with %s although nothing is forbidden (deviations: %s): %s" % (c["opts"], (names + extras)[:3], r.tail()))
        if ex != "json":
            return Info(bool(names or extras), ["accepted", ex])
        with judging("json"):
            got = box.json("out.json")
            got.pop("ComplexDataTypes", None)
            # whitelisted attributes appear even if empty
            want = ref.flat(tree, ref.struct_names(ref.to_tree(c["types"])) if c["types"] else (), ext=tuple(c["wl"]), keep_null_ext=tuple(c["wl"]))
            msg = ref.diff_flat(want, ref.unnest(got))
        if msg:
            raise Violation(msg)
    labels = ["rejected" if reasons else "accepted", "strict" if strict else "lenient"]
    labels += ["names"] * bool(names) + ["extras"] * bool(extras) + ["whitelist"] * bool(c["wl"])
    return Info(bool(names or extras or valid.extra_problems(tree)), labels)
