"""CSV export: one faithful row per node."""
import ast
import csv
import io

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, emit, models, prob, types_tree
from ..runner import Violation, judging

RULE = (
    "Generated models as for JSON (commas, quotes, semicolons and line breaks in texts and enum values included), "
    "exported with every combination of --uuid, --no-expand and --types-output. Non-trivial: more than three rows."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(structs=0.3, fka=0.1, max_nodes=8, instances=0.35)
BASE = ["Type", "DataType", "Deprecated", "Unit", "Min", "Max", "Desc", "Comment", "Allowed", "Default"]


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(CFG))
    ks = [k for k in m["base"] if "." in k]
    if ks and prob(d, 0.15):
        m["base"][d(st.sampled_from(ks))]["delete"] = True
    return {"m": m, "uuid": d(st.booleans()), "expand": not prob(d, 0.4), "sep": d(st.booleans())}


def strategy(tier):
    return strategy_()


def cell_ok(cell, v, kind):
    if v is None or (kind in ("allowed", "instances") and v == []):
        return cell == "" or (cell == "[]" and v == [])
    if isinstance(v, str):
        return cell == v
    if isinstance(v, list) or isinstance(v, bool):
        return ref.strict_eq(ast.literal_eval(cell), v)
    x = ast.literal_eval(cell)
    return type(x) is type(v) and x == v


def check(c, box):
    m = c["m"]
    args = emit(box, m) + ["-o", "out.csv"]
    args += ["--uuid"] if c["uuid"] else []
    args += [] if c["expand"] else ["--no-expand"]
    tt = types_tree(m)
    sep = bool(tt) and c["sep"]
    args += ["--types-output", "types.csv"] if sep else []
    box.must("csv", *args)
    structs = ref.struct_names(tt)
    tree = ref.build([m["base"]], c["expand"])
    want = [("S", f, n) for f, n in tree.walk()]
    twant = [("T", f, n) for f, n in tt.walk()] if tt else []
    with judging("csv"):
        files = [("out.csv", want + ([] if sep else twant), "Node" if tt and not sep else "Signal")]
        if sep:
            files.append(("types.csv", twant, "Node"))
        for fn, nodes, head in files:
            rows = list(csv.reader(io.StringIO(box.read(fn), newline="")))
            header = [head] + BASE + (["Id"] if c["uuid"] else []) + ([] if c["expand"] else ["Instances"])
            if rows[0] != header:
                raise Violation("%s: header %s expected %s" % (fn, rows[0], header))
            body = rows[1:]
            if len(body) != len(nodes):
                raise Violation("%s: %d rows for %d nodes" % (fn, len(body), len(nodes)))
            left = {}
            for i, (w, f, n) in enumerate(nodes):
                left.setdefault(f, []).append((w, n))
            pos = {}
            for i, row in enumerate(body):
                if len(row) != len(header):
                    raise Violation("%s: row %s has %d columns" % (fn, row, len(row)))
                r = dict(zip(header, row))
                f = r[head]
                if not left.get(f):
                    raise Violation("%s: unexpected row %s" % (fn, f))
                w, n = left[f].pop(0)
                if "." in f and f.rsplit(".", 1)[0] not in pos:
                    raise Violation("%s: row %s comes before its parent" % (fn, f))
                pos[f] = i
                a = dict(n.attrs)
                if "datatype" in a:
                    a["datatype"] = ref.resolve_type(a["datatype"], f, structs)
                if isinstance(a.get("instances"), str):
                    a["instances"] = [a["instances"]]
                for col, key in zip(BASE, ["type", "datatype", "deprecation", "unit", "min", "max", "description", "comment", "allowed", "default"]):
                    if not cell_ok(r[col], a.get(key), key):
                        raise Violation("%s: %s: column %s is %r, model has %r" % (fn, f, col, r[col], a.get(key)))
                if not c["expand"] and not cell_ok(r["Instances"], a.get("instances"), "instances"):
                    raise Violation("%s: %s: Instances is %r, model has %r" % (fn, f, r["Instances"], a.get("instances")))
                if c["uuid"] and r["Id"] != (ref.uuid_of(f) if w == "S" else ""):
                    raise Violation("%s: %s: Id is %r" % (fn, f, r["Id"]))
    return Info(len(want) > 3, ["structs"] * bool(tt) + ["expand" if c["expand"] else "no-expand", "uuid" if c["uuid"] else "no-uuid"])
