"""Instances expand to exactly the declared tree."""
from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..gen import UNITS, Cfg, emit, gen_nodes, instances_value, prob
from ..runner import Violation, judging

RULE = (
    "Generated models in which most branches declare instances (single range, name list, list of ranges/lists, two and "
    "three levels, ranges from 0 or of one element, text after the range, nested instantiated branches, instantiate: "
    "false children), exported with and without expansion as JSON, YAML or CSV; some with an inverted range. "
    "Non-trivial: the expansion multiplies at least one descendant node."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(mixed=True, max_nodes=8, max_depth=4, instances=0.75, root_instances=0.3, instantiate=0.3, ext=0.15, text="plain")


def ensure_instances(d, base):
    """At least one branch with descendants declares instances."""
    if any(a.get("instances") for a in base.values()):
        return
    cand = [k for k, a in base.items() if a["type"] == "branch" and any(f.startswith(k + ".") for f in base)]
    cand = cand[1:] or cand
    base[cand[d(st.integers(0, len(cand) - 1))]]["instances"] = instances_value(d, True)


@st.composite
def strategy_(draw):
    d = draw
    base = gen_nodes(d, CFG)
    ensure_instances(d, base)
    for k, a in base.items():
        if a.get("type") == "branch" and a.get("instances") and prob(d, 0.15):
            a["aggregate"] = d(st.booleans())
    bad = None
    inst = [k for k, a in base.items() if a.get("instances")]
    if inst and prob(d, 0.05):
        bad = d(st.sampled_from(inst))
        base[bad]["instances"] = d(st.sampled_from(["Row[3,1]", "Row[10,9]", "Row[101,20]", ["Row[2,1]"], [["Left", "Pos[9,2]"]], ["Row[1,2]", "Pos[1,0]"], [["Left", "Left"]], ["Left", "Right", "Left"], [["Row[1,3]", "Row2"]]]))
    exporter = d(st.sampled_from(["json", "json", "json", "yaml", "csv"]))
    return {"base": base, "bad": bad, "expand": not prob(d, 0.2), "exporter": exporter}


def strategy(tier):
    return strategy_()


def check(c, box):
    args = emit(box, {"base": c["base"]}) + ["-o", "out"]
    if c["exporter"] != "csv":
        args.append("--extend-all-attributes")
    if not c["expand"]:
        args.append("--no-expand")
    r = box.export(c["exporter"], *args)
    if c["bad"] and c["expand"]:
        if r.ok:
            raise Violation("inverted range or duplicate instance accepted at %s" % c["bad"])
        return Info(True, ["rejected"])
    if not r.ok:
        raise Violation("valid model rejected: %s" % r.tail())
    tree = ref.build([c["base"]], c["expand"])
    labels = [c["exporter"], "expand" if c["expand"] else "no-expand"]
    with judging(c["exporter"]):
        if c["exporter"] == "csv":
            import csv
            import io

            rows = list(csv.reader(io.StringIO(box.read("out"))))
            want = sorted((f, n.attrs["type"], n.attrs["description"], n.attrs.get("datatype", "")) for f, n in tree.walk())
            got = sorted((x[0], x[1], x[7], x[2]) for x in rows[1:])
            msg = None
            if want != got:
                msg = "rows %s expected %s" % ([x for x in got if x not in want][:3], [x for x in want if x not in got][:3])
        else:
            got = box.yaml("out") if c["exporter"] == "yaml" else ref.unnest(box.json("out"))
            msg = ref.diff_flat(ref.flat(tree), got)
    if msg:
        raise Violation("expansion differs: " + msg)
    n0, n1 = len(c["base"]), sum(1 for _ in tree.walk())
    multi = [a["instances"] for a in c["base"].values() if a.get("instances")]
    if len(multi) > 1:
        labels.append("several instance branches")
    if any("instantiate" in a for a in c["base"].values()):
        labels.append("instantiate:false")
    if not c["bad"] and any(isinstance(i, list) and any(ref.instance_forest(i).values()) for i in multi):
        labels.append("multi level")
    return Info(n1 > n0 and bool(multi), labels)
