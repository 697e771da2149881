"""YAML export equals the model and can be loaded again."""
import re

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, emit, models, prob, types_tree
from ..runner import Violation, judging

RULE = (
    "Generated models as for JSON; the YAML export is compared with the reference model, then fed back as the vspec of "
    "a JSON and a second YAML export (types file too), for expanded and unexpanded exports. Non-trivial: more than "
    "three nodes."
)
COUNTS = {"quick": 1400, "thorough": 24000}
CFG = Cfg(structs=0.3, uids=0.1, fka=0.1, max_nodes=8, ext=0.3)


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(CFG))
    ks = [k for k in m["base"] if "." in k]
    if ks and prob(d, 0.15):
        m["base"][d(st.sampled_from(ks))]["delete"] = True
    return {"m": m, "expand": not prob(d, 0.3), "uuid": prob(d, 0.2), "sep": d(st.booleans())}


def strategy(tier):
    return strategy_()


def check(c, box):
    m = c["m"]
    args = emit(box, m)
    tt = types_tree(m)
    structs = ref.struct_names(tt)
    more = [] if c["expand"] else ["--no-expand"]
    if c["uuid"]:
        more += ["--uuid"]
    tree = ref.build([m["base"]], c["expand"])
    want = ref.flat(tree, structs, "all", c["uuid"])
    twant = ref.flat(tt, structs, "all") if tt else None
    sep = bool(tt) and c["sep"]
    box.must("yaml", *args, *more, "--extend-all-attributes", "-o", "out.yaml", *(["--types-output", "types.out"] if sep else []))
    with judging("yaml"):
        text = box.read("out.yaml")
        tops = re.findall(r"^([^\s#][^\n]*?):", text, re.M)
        if len(set(tops)) != len(tops):
            raise Violation("duplicate keys in the YAML output")
        got = box.yaml("out.yaml")
        tgot = None
        if tt:
            tgot = box.yaml("types.out") if sep else got.pop("ComplexDataTypes")
        msg = ref.diff_flat(want, got) or (tt and ref.diff_flat(twant, tgot))
        if msg:
            raise Violation("yaml: " + msg)
    labels = ["expand" if c["expand"] else "no-expand"] + ["structs"] * bool(tt)
    if tt and not sep:
        return Info(len(want) > 3, labels)
    # import what was exported
    inst = any(a.get("instances") for a in m["base"].values())
    lost = inst and not c["expand"] and any("instantiate" in a for a in m["base"].values())
    args2 = ["-s", "out.yaml", "-u", "units.yaml", "-q", "quantities.yaml"] + (["-t", "types.out"] if tt else [])
    if lost:
        more2 = ["--no-expand"]
    else:
        more2 = []
    args2 += ["--extend-all-attributes"] + ([] if lost else [])
    box.must("json", *args2, *more2, "-o", "again.json", "--types-output", "again.types", why="re-import of a YAML export")
    full = ref.flat(ref.build([m["base"]], c["expand"] or not lost), structs, "all", False)
    if c["uuid"]:
        # the uuids of the unexpanded export are ordinary extended attributes on re-import
        if not c["expand"]:
            return Info(len(want) > 3, labels)
        for k in full:
            full[k]["uuid"] = ref.uuid_of(k)
    with judging("json after re-import"):
        msg = ref.diff_flat(full, ref.unnest(box.json("again.json")))
        if not msg and tt:
            msg = ref.diff_flat(twant, ref.unnest(box.json("again.types")))
    if msg:
        raise Violation("re-importing the YAML export: " + msg)
    if c["expand"]:
        box.must("yaml", *args2, "-o", "again.yaml", *(["--types-output", "types.again"] if tt else []), why="re-export")
        if box.read("again.yaml", "rb") != box.read("out.yaml", "rb"):
            raise Violation("re-exporting a YAML export changes it")
        if tt and box.read("types.again", "rb") != box.read("types.out", "rb"):
            raise Violation("re-exporting a YAML types export changes it")
    labels.append("re-imported")
    return Info(len(want) > 3, labels)
