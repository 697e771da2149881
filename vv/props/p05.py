"""delete removes exactly the marked subtrees."""
from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..gen import UNITS, Cfg, emit, gen_nodes, leaf_attrs, prob
from ..runner import Violation, judging
from .p03 import ensure_instances

RULE = (
    "Generated models (half of them with instances) and 0-2 overlays that mark 1-4 nodes with delete - signals, "
    "branches, common nodes of instances, nodes of one concrete instance, whole instances, nodes below deleted nodes, "
    "delete: false resets - exported as JSON, YAML, CSV or IDs. Non-trivial: at least one node disappears and at least "
    "two remain."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(max_nodes=9, max_depth=4, instances=0.45, root_instances=0.1, instantiate=0.1, ext=0.1, text="plain")


@st.composite
def strategy_(draw):
    d = draw
    base = gen_nodes(d, CFG)
    if prob(d, 0.5):
        ensure_instances(d, base)
    overlays = []
    novl = d(st.integers(0, 2))
    if novl == 0 or prob(d, 0.3):
        ks = [k for k in base if "." in k]
        for k in d(st.lists(st.sampled_from(ks), min_size=1, max_size=2, unique=True)) if ks else []:
            base[k]["delete"] = d(st.sampled_from([True, True, False]))
    for i in range(novl):
        try:
            nodes = dict(ref.build([dict((k, {a: b for a, b in v.items() if a != "delete"}) for k, v in base.items())]).walk())
        except ref.Invalid:
            nodes = {}
        pool = sorted((set(nodes) | set(base)), key=lambda x: (x.count("."), x))[1:]
        ov = {}
        for k in d(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique=True)) if pool else []:
            n = nodes.get(k)
            a = base.get(k) or n.attrs
            p = {"delete": d(st.sampled_from([True, True, True, False]))}
            form = d(st.sampled_from(["bare", "doc", "full"]))
            if form != "bare":
                p["type"] = a["type"]
                if "datatype" in a:
                    p["datatype"] = a["datatype"]
            if form == "full":
                p["description"] = "deleted"
            ov[k] = p
        overlays.append(ov)
    return {"base": base, "overlays": overlays, "exporter": d(st.sampled_from(["json", "json", "yaml", "csv", "id"]))}


def strategy(tier):
    return strategy_()


def check(c, box):
    ex = c["exporter"]
    args = emit(box, {"base": c["base"]}, c["overlays"]) + ["-o", "out"]
    r = box.export(ex, *args)
    try:
        full = ref.to_tree(ref.merge_layers([c["base"]] + c["overlays"]))
        ref.expand(full)
        probs = valid.tree_problems(full, (), UNITS)
        before = sum(1 for _ in full.walk())
        ref.prune(full)
    except ref.Invalid as e:
        probs = [str(e)]
    if probs:
        # e.g. a bare delete entry for something that does not exist
        return Info(False, ["unmodelled"])
    if ex == "id" and not r.ok and "hash" in (r.log + r.stdout):
        return Info(False, ["uid collision"])
    if not r.ok:
        raise Violation("valid model with deletions rejected: %s" % r.tail())
    want = {f: n.attrs["description"] for f, n in full.walk()}
    with judging(ex):
        if ex == "csv":
            import csv
            import io

            got = {x[0]: x[7] for x in list(csv.reader(io.StringIO(box.read("out"))))[1:]}
        elif ex == "json":
            got = {k: v["description"] for k, v in ref.unnest(box.json("out")).items()}
        else:
            got = {k: v["description"] for k, v in box.yaml("out").items()}
        if got != want:
            raise Violation(
                "after deletion (%s): still there %s, wrongly gone %s, changed %s"
                % (ex, [k for k in got if k not in want][:4], [k for k in want if k not in got][:4], [k for k in want if k in got and got[k] != want[k]][:4])
            )
    gone = before - len(want)
    return Info(gone > 0 and len(want) > 2, [ex, "gone:%d" % min(gone, 9)])
