"""Validation against an earlier UID file classifies every change correctly."""
import copy
import re

from hypothesis import strategies as st

from .. import ids, ref, valid
from ..engine import Info
from ..gen import UNITS, Cfg, dump, emit, gen_nodes, leaf_attrs, prob
from ..runner import Violation, judging

RULE = (
    "A generated model is exported with ids, then evolved by 0-5 operations on distinct nodes (add, remove, rename with "
    "and without fka as string, first or later list entry, rename of a branch, case-only rename, move, change of "
    "datatype/type/unit/min/max/allowed, of description, comment, deprecation, default, constUID pinning) and validated "
    "against the first file, with and without --case-sensitive, --validate-only and --no-expand. The set of warnings must "
    "be exactly the expected one. Non-trivial: at least one operation was applied."
)
COUNTS = {"quick": 1400, "thorough": 24000}
CFG = Cfg(max_nodes=7, max_depth=3, instances=0.25, text="plain", ext=0.0, comments=0.3, arrays=True)
TEXTS = ["new text A", "new text B", "it's new"]


@st.composite
def strategy_(draw):
    d = draw
    nops = d(st.sampled_from([1, 2, 3, 3, 5, 0]))
    old = gen_nodes(d, CFG)
    if not any(a["type"] != "branch" for a in old.values()) or prob(d, 0.5):
        old[next(iter(old)) + ".Basic"] = {"type": "sensor", "datatype": "float", "description": "basic", "min": 0, "max": 10, "unit": "km"}
    for k in old:
        if prob(d, 0.3):
            old[k]["deprecation"] = d(st.sampled_from(["v1 deprecated", "v1 deprecated", "x", "0"]))
    twins = {}
    if prob(d, 0.3):
        # two signals that differ in nothing but their names
        k = d(st.sampled_from([k for k, a in old.items() if a["type"] != "branch"]))
        if k + "Twin" not in old:
            old[k + "Twin"] = dict(old[k])
            twins = {k: k + "Twin", k + "Twin": k}
    new = copy.deepcopy(old)
    ops = []
    leaves = [k for k, a in old.items() if a["type"] != "branch"]
    order = d(st.permutations(leaves))
    branches = [k for k, a in old.items() if a["type"] == "branch"]
    for i in range(min(len(order), nops)):
        k = order[i]
        if k not in new:
            continue
        a = new[k]
        par = k.rsplit(".", 1)[0]
        op = d(st.sampled_from(["rename_fka", "rename_fka", "rename_fka2", "rename", "remove", "add", "breaking", "breaking", "breaking", "desc", "deprecation", "harmless", "recase", "move_fka", "pin", "branch"]))
        if twins.get(k) in new and prob(d, 0.5):
            op = "merge"
        if op in ("rename_fka", "rename_fka2", "rename", "recase", "move_fka"):
            nk = par + ".Renamed%d" % i
            if op == "recase":
                last = k.rsplit(".", 1)[1]
                nk = par + "." + last[0] + last[1:].swapcase()
                if nk == k or nk in new:
                    continue
            if op == "move_fka":
                bs = [b for b in branches if b in new]
                nk = d(st.sampled_from(bs))
                same = nk + "." + k.rsplit(".", 1)[1]  # of the same name
                nk = same if same not in new and d(st.booleans()) else nk + ".Moved%d" % i
            new.pop(k)
            new[nk] = dict(a)
            if op in ("rename_fka", "move_fka"):
                new[nk]["fka"] = d(st.sampled_from([k, [k], [k, "V.Oldest"]]))
            elif op == "rename_fka2":
                new[nk]["fka"] = ["V.NeverSeen%d" % i, k]
            elif op == "rename" and prob(d, 0.2):
                new[nk]["fka"] = ["V.NeverA%d" % i, "V.NeverB", "V.NeverC", k]
        elif op == "merge":
            # one signal takes the place of both
            t = twins[k]
            new.pop(k)
            kept = d(st.sampled_from(["gone", "gone", "stays"]))
            if kept != "stays":
                new.pop(t)
            new[par + ".Merged%d" % i] = {**a, "fka": d(st.sampled_from([[k, t], ["V.Not", k, t], ["V.Not", k, t], [t, "V.Not", k]]))}
        elif op == "remove":
            new.pop(k)
        elif op == "add":
            new[par + ".Added%d" % i] = leaf_attrs(d, CFG)
            if prob(d, 0.3):
                new[par + ".Added%d" % i]["fka"] = ["V.Nothing"]
        elif op == "breaking":
            what = d(st.sampled_from(["type", "datatype", "min", "max", "allowed", "unit", "arr"]))
            dt = a["datatype"]
            if what == "type":
                a["type"] = {"sensor": "actuator", "actuator": "attribute", "attribute": "sensor"}[a["type"]]
            elif what in ("min", "max") and "allowed" not in a and dt.rstrip("[]") not in ("string", "boolean"):
                if what in a and prob(d, 0.3):
                    a.pop(what)
                else:
                    a[what] = d(st.sampled_from([0, 1, -3, 0.5, 77]))
            elif what == "allowed" and a.get("allowed") and "default" not in a:
                a["allowed"] = a["allowed"][:-1] if len(a["allowed"]) > 1 and d(st.booleans()) else a["allowed"] + a["allowed"][:1]
            elif what == "unit":
                if a.get("unit"):
                    a.pop("unit")
                elif dt in ("float", "uint8"):
                    a["unit"] = "km"
            elif not (set(a) & {"allowed", "default", "unit", "min", "max", "arraysize"}):
                a["datatype"] = "double" if dt == "float" else "float"
        elif op == "desc":
            old_text = a["description"]
            near = [" " + old_text, old_text + " ", old_text.swapcase(), old_text.replace(" ", "  "), old_text + "."]
            a["description"] = d(st.sampled_from(TEXTS + near))
        elif op == "deprecation":
            was = a.get("deprecation") or "x"
            a["deprecation"] = d(st.sampled_from(TEXTS + [was + " ", was.swapcase(), was + ".", was[:-1] or "y", was[1:] or "y"]))
        elif op == "harmless":
            a[d(st.sampled_from(["comment", "source"]))] = "changed"
        elif op == "pin":
            # keep the UID although something breaking changes
            if not any(v.get("instances") for v in old.values()):
                a["constUID"] = ids.uid(old[k], k)
                a["type"] = {"sensor": "actuator", "actuator": "attribute", "attribute": "sensor"}[a["type"]]
        elif op == "branch":
            if par.count(".") < 1 or par not in new:
                continue
            np = par + "Moved"
            if any(x == np or x.startswith(np + ".") for x in new):
                continue
            for x in [x for x in new if x == par or x.startswith(par + ".")]:
                new[np + x[len(par):]] = new.pop(x)
            branches = [b for b in branches if b in new]
        ops.append(op)
    return {"old": old, "new": new, "ops": ops, "cs": d(st.booleans()), "only": d(st.booleans()), "expand": not prob(d, 0.2), "strip": d(st.lists(st.integers(0, 20), max_size=2)) if prob(d, 0.15) else []}


def strategy(tier):
    return strategy_()


def classify(old, new, cs):
    """old: the validation file (id export); new: id export of the new model."""
    msgs = []
    byuid = {v["staticUID"]: k for k, v in old.items()}
    left = dict(old)

    def semantic(k, v):
        hit = None
        for f in v.get("fka") or []:
            a = dict(v)
            a.pop("fka")
            u = "0x%08X" % ids.fnv1_32(ids.ident(f, a, k, (), cs))
            if u in {o["staticUID"] for o in left.values()}:
                hit = next(n for n, o in left.items() if o["staticUID"] == u)
                msgs.append(("SEMANTIC", k, hit))
        return hit

    for k, v in new.items():
        o = byuid.get(v["staticUID"])
        if o is not None and o in left:
            if o != k:
                semantic(k, v)
            if v.get("deprecation") and left[o].get("deprecation") and v["deprecation"] != left[o]["deprecation"]:
                msgs.append(("DEPRECATION", k, ""))
            if v["description"] != left[o]["description"]:
                msgs.append(("DESCRIPTION", k, ""))
            left.pop(o)
        else:
            s = semantic(k, v)
            if s is not None:
                left.pop(s)
            elif k in left:
                msgs.append(("BREAKING", k, ""))
                left.pop(k)
            else:
                msgs.append(("ADDED", k, ""))
    msgs += [("DELETED", k, "") for k in left]
    return sorted(msgs)


PATTERNS = [
    ("SEMANTIC", r"SEMANTIC NAME CHANGE or PATH CHANGE for '([^']*)', it used to be '([^']*)'"),
    ("DEPRECATION", r"DEPRECATION MSG CHANGE: Deprecation message for '([^']*)'()"),
    ("DESCRIPTION", r"DESCRIPTION MISMATCH: The description of (\S+) has changed()"),
    ("BREAKING", r"BREAKING CHANGE: There was a breaking change for '([^']*)'()"),
    ("ADDED", r"ADDED ATTRIBUTE: The node '([^']*)'()"),
    ("DELETED", r"DELETED ATTRIBUTE: '([^']*)'()"),
]


def check(c, box):
    args = emit(box, {"base": c["old"]}) + ["-u", "units.yaml", "-q", "quantities.yaml"]
    opts = (["--case-sensitive"] if c["cs"] else []) + ([] if c["expand"] else ["--no-expand"])
    t_old, t_new = ref.build([c["old"]], c["expand"]), ref.build([c["new"]], c["expand"])
    if valid.tree_problems(t_new, (), UNITS) or valid.tree_problems(t_old, (), UNITS):
        return Info(False, ["invalid"])
    e_old, e_new = ids.expected(t_old, (), c["cs"]), ids.expected(t_new, (), c["cs"])
    if ids.collisions(e_old) or ids.collisions(e_new):
        return Info(False, ["collision"])
    box.must("id", *args, *opts, "-o", "v1.vspec")
    box.must("json", "-s", "v1.vspec", "-u", "units.yaml", "-q", "quantities.yaml", "-e", "staticUID", "-o", "v1.json", why="a generated id file is a vspec")
    with judging("json of id file"):
        got = {k: v.get("staticUID") for k, v in ref.unnest(box.json("v1.json")).items()}
        if got != {k: v["staticUID"] for k, v in e_old.items()}:
            raise Violation("the id file does not carry the static UIDs into other exports")
    if c.get("strip"):  # nodes without a UID in the validation file
        v1 = box.yaml("v1.vspec")
        for i in c["strip"]:
            k = sorted(e_old)[i % len(e_old)]
            if "." in k:
                v1[k].pop("staticUID", None)
                e_old[k]["staticUID"] = None
        box.write("v1.vspec", dump(v1))
    args2 = emit(box, {"base": c["new"]}, root="new.vspec") + ["-u", "units.yaml", "-q", "quantities.yaml"]
    r = box.must("id", *args2, *opts, "--validate-static-uid", "v1.vspec", "-o", "v2.vspec", *(["--validate-only"] if c["only"] else []), level="WARNING", why="validation")
    with judging("validation"):
        if c["only"]:
            if box.exists("v2.vspec"):
                raise Violation("--validate-only writes an output")
        else:
            msg = ref.diff_flat(e_new, box.yaml("v2.vspec"))
            if msg:
                raise Violation("id export with validation: " + msg)
        log = r.log
        n = log.count("[Validation]")
        got = []
        for kind, pat in PATTERNS:
            got += [(kind, m.group(1), m.group(2)) for m in re.finditer(pat, log)]
        if len(got) != n:
            raise Violation("unknown validation messages: %s" % log[:600])
    want = classify(e_old, e_new, c["cs"])
    if sorted(got) != want:
        raise Violation(
            "classification (case-sensitive=%s): reported %s, expected %s"
            % (c["cs"], [x for x in sorted(got) if x not in want][:4], [x for x in want if x not in got][:4])
        )
    return Info(bool(c["ops"]), ["op:" + o for o in set(c["ops"])] + ["msg:" + k for k in {x[0] for x in want}])
