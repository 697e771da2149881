"""JSON export is a faithful image of the model."""
import json
import re

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, emit, models, prob, types_tree
from ..runner import Violation, judging

RULE = (
    "Generated models with every attribute (text with quotes, colons, line breaks and non-ASCII, boundary numbers, "
    "booleans, arrays, constUID, fka, deprecation, extended attributes, instances, delete, struct types), exported with "
    "every combination of --pretty, --uuid, --no-expand, --types-output and extended attribute options. Non-trivial: "
    "more than three nodes."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(structs=0.35, uids=0.1, fka=0.1, max_nodes=8)


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(CFG))
    ks = [k for k in m["base"] if "." in k]
    if ks and prob(d, 0.15):
        m["base"][d(st.sampled_from(ks))]["delete"] = True
    return {"m": m, "pretty": d(st.booleans()), "uuid": d(st.booleans()), "expand": not prob(d, 0.3), "sep": d(st.booleans()), "ext": d(st.sampled_from(["all", "none", "source"]))}


def strategy(tier):
    return strategy_()


def tokens(text):
    return re.sub(r'("(?:[^"\\]|\\.)*")|\s+', lambda g: g[1] or "", text)


def check(c, box):
    m = c["m"]
    args = emit(box, m) + ["-o", "out.json"]
    ext = ()
    if c["ext"] == "all":
        args += ["--extend-all-attributes"]
        ext = "all"
    elif c["ext"] != "none":
        args += ["-e", c["ext"]]
        ext = (c["ext"],)
    args += ["--pretty"] if c["pretty"] else []
    args += ["--uuid"] if c["uuid"] else []
    args += [] if c["expand"] else ["--no-expand"]
    tt = types_tree(m)
    sep = c["sep"] and tt
    args += ["--types-output", "types.json"] if sep else []
    box.must("json", *args)
    if c["pretty"]:
        # the same without white space
        box.must("json", *[{"out.json": "out2.json", "types.json": "types2.json"}.get(a, a) for a in args if a != "--pretty"])
        for a, b in [("out.json", "out2.json")] + [("types.json", "types2.json")] * bool(sep):
            if tokens(box.read(a)) != tokens(box.read(b)):
                raise Violation("--pretty changes more than white space of %s" % a)
    structs = ref.struct_names(tt)
    want = ref.flat(ref.build([m["base"]], c["expand"]), structs, ext, c["uuid"])
    with judging("json"):
        text = box.read("out.json")
        dup = []

        def pairs(ps):
            if len({k for k, _ in ps}) != len(ps):
                dup.append([k for k, _ in ps])
            return dict(ps)

        got = json.loads(text, object_pairs_hook=pairs, parse_constant=lambda x: dup.append(x))
        if dup:
            raise Violation("not plain JSON: %s" % dup[:3])
        if c["pretty"] != ("\n" in text.strip()) and len(want) > 1:
            raise Violation("--pretty not honoured")
        types = None
        if tt:
            types = box.json("types.json") if sep else got.pop("ComplexDataTypes")
        got = ref.unnest(got)
        msg = ref.diff_flat(want, got)
        if not msg and tt:
            msg = ref.diff_flat(ref.flat(tt, structs, ext), ref.unnest(types))
        if msg:
            raise Violation(msg)
    return Info(len(want) > 3, ["structs"] * bool(tt) + ["expand" if c["expand"] else "no-expand", "ext:" + c["ext"], "uuid" if c["uuid"] else "no-uuid"])
