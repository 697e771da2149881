"""Extended attributes are exported exactly as selected."""
from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import EXT, Cfg, emit, ext_value, gen_nodes, gen_types, leaf_attrs, prob
from ..runner import Violation, judging

RULE = (
    "Models in which most nodes (branches, signals, instances, structs, properties) carry 1-3 extended attributes with "
    "scalar, empty, null, list and nested map values, given in the base, by overlays or for one instance; exported as "
    "JSON or YAML with every subset of -e and --extend-all-attributes, expanded or not, with and without type output. "
    "Non-trivial: at least two extended attributes in the model."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(max_nodes=6, instances=0.35, ext=0.8, text="rich", null_ext=True, attrs=False, comments=0.1)
SAFE = Cfg(**{**CFG.__dict__, "null_ext": False})


@st.composite
def strategy_(draw):
    d = draw
    types, structs = None, []
    if prob(d, 0.3):
        types, structs = gen_types(d, CFG)
    base = gen_nodes(d, CFG, structs)
    ov = []
    if prob(d, 0.4):
        full = [f for f, n in ref.build([base]).walk()]
        o = {}
        for k in d(st.lists(st.sampled_from(full), min_size=1, max_size=3, unique=True)):
            o[k] = {d(st.sampled_from(EXT)): d(ext_value(SAFE))}
        ov.append(o)
    # the types tree only accepts whitelisted attributes
    tkeys = sorted({k for a in (types or {}).values() for k in a if k not in ref.CORE})
    wl = sorted(set(d(st.lists(st.sampled_from(EXT + ["unusedName"]), max_size=4, unique=True))) | set(tkeys))
    return {"base": base, "types": types, "ov": ov, "wl": wl, "all": d(st.booleans()), "ex": d(st.sampled_from(["json", "json", "yaml"])), "expand": not prob(d, 0.25), "sep": d(st.booleans())}


def strategy(tier):
    return strategy_()


def check(c, box):
    args = emit(box, {"base": c["base"], "types": c["types"]}, c["ov"]) + ["-o", "out"]
    for e in c["wl"]:
        args += ["-e", e]
    args += ["--extend-all-attributes"] if c["all"] else []
    args += [] if c["expand"] else ["--no-expand"]
    tt = ref.to_tree(c["types"]) if c["types"] else None
    sep = bool(tt) and c["sep"]
    args += ["--types-output", "tout"] if sep else []
    r = box.export(c["ex"], *args)
    tree = ref.build([c["base"]] + c["ov"], c["expand"])
    from .. import valid

    structs = ref.struct_names(tt)
    probs = valid.tree_problems(tree, structs)
    if probs:
        # an overlay entry for an instance path stays an incomplete node if not expanded
        if r.ok:
            raise Violation("accepted despite %s" % probs[:3])
        return Info(False, ["invalid"])
    if not r.ok:
        raise Violation("valid model rejected: " + r.tail())
    ext = "all" if c["all"] else tuple(c["wl"])
    want = ref.flat(tree, structs, ext, keep_null_ext=tuple(c["wl"]))
    with judging(c["ex"]):
        rd = box.json if c["ex"] == "json" else box.yaml
        un = ref.unnest if c["ex"] == "json" else (lambda x: x)
        got = rd("out")
        t = (rd("tout") if sep else got.pop("ComplexDataTypes")) if tt else None
        msg = ref.diff_flat(want, un(got))
        if not msg and tt:
            msg = ref.diff_flat(ref.flat(tt, structs, ext, keep_null_ext=tuple(c["wl"])), un(t))
    if msg:
        raise Violation("%s -e %s%s: %s" % (c["ex"], c["wl"], " all" if c["all"] else "", msg))
    n = sum(1 for _, x in tree.walk() for k in x.attrs if k not in ref.CORE)
    return Info(n >= 2, [c["ex"], "all" if c["all"] else "selected", "wl:%d" % len(c["wl"])])
