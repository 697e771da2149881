"""Whatever the input files contain: one verdict, shared by the exporters, and no half way."""
import json
import re

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, dump, emit_units, leaf_attrs, models, prob
from ..runner import Violation, judging

RULE = (
    "The text of a generated valid model (vspec, overlay, include file, types file, units, quantities) mutated 1-4 times: attribute values "
    "and whole nodes replaced by arbitrary YAML values (null, numbers out of range, dates, nested lists and maps, tags, anchors), attributes "
    "renamed, moved or doubled, lines deleted, doubled, swapped or indented, characters and bytes replaced, inserted and deleted. The mutant is "
    "given to json, yaml, csv, tree, jsonschema and (without types) franca: all have to give the same verdict, a rejecting one has no output, "
    "an accepted one has the same nodes in all outputs, and its YAML export gives the same JSON again. Non-trivial: the mutant differs from the "
    "model; both verdicts occur (see classes)."
)
COUNTS = {"quick": 2400, "thorough": 20000}
CFG = Cfg(max_nodes=5, max_depth=3, instances=0.25, structs=0.3, ext=0.2, uids=0.1, fka=0.1, null_ext=False)
VALUES = ["null", "~", "''", "0", "-1", "1.5", "256", "-129", "1e400", "99999999999999999999", "true", "no", "[]", "[1, 2]", "[null]", "[[1], [2]]", "{}", "{a: 1}", "text", "'1'",
          "2020-01-01", "2020-01-01 10:00:00", "!!binary aGk=", "!!str 5", "!!int '7'", "0x10", "0o7", "010", "1_000", "1:30", "branch", "sensor", "actuator", "attribute", "struct", "property",
          "uint8", "uint8[]", "string", "boolean", "float", "km", "percent", "Row[1,2]", "Row[2,1]", "Row[1]", "Row[a,b]", "Row[1,2", "[Left, Right]", "[[Left, Right], 'Row[1,3]']",
          "['Row[1,2]', [A, B]]", "[Left, Left]", "Vehicle", "0x12345678", "[Old.Name]", "*nothing", "&x y", "{<<: {a: 1}}", "? a", "|", "a: b: c", "'un", "\"\\u00e4\"", "[1, '2', 3.0]",
          '"\\ud800"', '["\\udfff x"]', '"a\\0b"', '"\\r\\n"', '"\\x85\\u2028\\ufeff"', '"\\e\\x7f"', '" x "']
KEYS = ["type", "datatype", "description", "comment", "min", "max", "unit", "allowed", "default", "arraysize", "instances", "instantiate", "aggregate", "delete", "deprecation",
        "constUID", "fka", "fqn", "is_instance", "name", "parent", "uuid", "extra", "X", "model_config", "data", "__class__", "1", "null", "''", "as_dict", "get_extra_attributes", "copy", "json"]
TEXTS = [v for v in VALUES if v.startswith('"')] + ["' '", "text  # no comment", "'#'", ">", "|+"]
NODES = ["New", "Vehicle.New", "A", "A.B.C.D", "Vehicle..X", ".X", "X.", "'a b'", "1", "null", "true", "Vehicle", "V.New", "2020-01-01", "'#x'", "'Row[1,2]'", "\u00c4", '"\\ud801"', '"A\\nB"', '"A\\0B"']


@st.composite
def mutated(draw, text):
    d = draw
    out = text
    for _ in range(d(st.integers(1, 4)) if prob(d, 0.5) else 1):
        lines = out.split("\n")
        attr = [i for i, l in enumerate(lines) if re.match(r" +[\w-]+:", l)]
        node = [i for i, l in enumerate(lines) if re.match(r"\S+:$", l)]
        kind = d(st.sampled_from(["value", "value", "value", "add", "add", "key", "node", "nodeval", "delete", "double", "swap", "indent", "char", "byte", "move"]))
        if kind in ("value", "key", "move", "add") and attr:
            i = attr[d(st.integers(0, len(attr) - 1))]
            k, v = lines[i].split(":", 1)
            if kind == "value":
                lines[i] = k + ": " + d(st.sampled_from(TEXTS if k.strip() in ("description", "comment") and d(st.booleans()) else VALUES))
            elif kind == "key":
                lines[i] = "  " + d(st.sampled_from(KEYS)) + ":" + v
            elif kind == "add":
                lines.insert(i, "  " + d(st.sampled_from(KEYS)) + ": " + d(st.sampled_from(VALUES)))
            else:
                j = attr[d(st.integers(0, len(attr) - 1))]
                lines.insert(j, lines.pop(i))
        elif kind in ("node", "nodeval") and node:
            i = node[d(st.integers(0, len(node) - 1))]
            if kind == "node":
                lines[i] = d(st.sampled_from(NODES)) + ":"
            else:
                lines.insert(i, d(st.sampled_from(NODES)) + ": " + d(st.sampled_from(VALUES)))
        elif kind in ("delete", "double", "swap", "indent"):
            i = d(st.integers(0, len(lines) - 1))
            if kind == "delete":
                del lines[i]
            elif kind == "double":
                lines.insert(i, lines[i])
            elif kind == "swap":
                j = d(st.integers(0, len(lines) - 1))
                lines[i], lines[j] = lines[j], lines[i]
            else:
                lines[i] = d(st.sampled_from([" ", "  ", "\t", "- "])) + lines[i] if d(st.booleans()) else lines[i][1:]
        elif kind in ("char", "byte"):
            p = d(st.integers(0, len(out)))
            c = d(st.sampled_from(list("\t:#-[]{}'\"&*!|>%@`,?\\.0aA \n\x00\x85\u2028\ufeff") + (["\udc80", "\udcff", "\udcfe"] if kind == "byte" else ["", "#include x.vspec\n", "---\n", "...\n"])))
            lines = (out[:p] + c + out[p + d(st.integers(0, 1)) :]).split("\n")
        out = "\n".join(lines)
    return out


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(Cfg(**{**CFG.__dict__, "structs": 0.0}) if prob(d, 0.6) else CFG))
    from ..gen import QUANTITIES, UNITS

    base, over, inc = dict(m["base"]), None, None
    ks = [k for k in base if "." in k]
    if ks and prob(d, 0.3):
        k = ks[d(st.integers(0, len(ks) - 1))]
        over = {k: base[k]}
    if ks and prob(d, 0.2):
        k = ks[d(st.integers(0, len(ks) - 1))]
        inc = {k: base.pop(k)}
    f = {"root.vspec": dump(base) + ("#include inc.vspec\n" if inc else "")}
    if over:
        f["over.vspec"] = dump(over)
    if inc:
        f["inc.vspec"] = dump(inc)
    if m["types"]:
        f["types.vspec"] = dump(m["types"])
    # the vspec files most of the time
    t = d(st.sampled_from([*f, *f, *f, "units.yaml", "quantities.yaml"] if prob(d, 0.5) else list(f)))
    if t not in f:
        few = {k: UNITS[k] for k in list(UNITS)[:4]} if t[0] == "u" else QUANTITIES
        full = UNITS if t[0] == "u" else QUANTITIES
        f[t] = d(mutated(dump(few))) + dump({k: v for k, v in full.items() if k not in few})
    else:
        f[t] = d(mutated(f[t]))
    return {"f": f, "t": t, "all": d(st.booleans())}


def strategy(tier):
    return strategy_()


OUT = {"json": "o.json", "yaml": "o.yaml", "csv": "o.csv", "tree": "o.tree", "jsonschema": "o.schema", "franca": "o.fidl"}


def check(c, box):
    emit_units(box)
    for k, t in c["f"].items():
        box.write(k, t.encode("utf-8", "surrogateescape"))
    args = ["-s", "root.vspec"]
    types = "types.vspec" in c["f"]
    if "over.vspec" in c["f"]:
        args += ["-l", "over.vspec"]
    if types:
        args += ["-t", "types.vspec"]
    before = box.tree_listing()
    verdict = {}
    for ex, o in OUT.items():
        if types and ex == "franca":
            continue
        more = ["--extend-all-attributes"] if ex in ("json", "yaml", "jsonschema") else []
        if ex in ("json", "yaml") and types:
            more += ["--types-output", "t." + ex]
        r = box.export(ex, *args, "-o", o, *more)
        if r.signal:
            raise Violation("%s dies from signal %d" % (ex, r.signal))
        verdict[ex] = r
        new = set(box.tree_listing()) - set(before)
        if r.ok:
            if o not in new:
                raise Violation("%s succeeds without output" % ex)
        elif new:
            raise Violation("%s fails but writes %s: %s" % (ex, sorted(new), r.tail(200)))
        for n in new:
            before[n] = b""
    oks = sorted(e for e, r in verdict.items() if r.ok)
    bad = sorted(e for e, r in verdict.items() if not r.ok)
    if oks and bad:
        raise Violation("%s accept the input, but %s reject it: %s" % (oks, bad, verdict[bad[0]].tail(300)))
    if bad:
        return Info(True, ["rejected", c["t"].split(".")[0]])
    with judging("json"):
        got = ref.unnest(box.json("o.json"))
    with judging("yaml"):
        y = box.yaml("o.yaml")
    if sorted(y) != sorted(got):
        raise Violation("json has nodes %s, yaml has %s" % (list(got)[:6], list(y)[:6]))
    msg = ref.diff_flat(got, y)
    if msg:
        raise Violation("json and yaml: " + msg)
    with judging("csv"):
        import csv
        import io

        names = [r[0] for r in csv.reader(io.StringIO(box.read("o.csv")))][1:]
    if not types and sorted(names) != sorted(got):
        raise Violation("json has nodes %s, csv has %s" % (list(got)[:6], names[:6]))
    with judging("jsonschema"):
        s = box.json("o.schema")

        def paths(p, n):
            yield p
            for k, v in n.get("properties", {}).items():
                yield from paths(p + "." + k, v)

        if sorted(paths(s["title"], s)) != sorted(got):
            raise Violation("json has nodes %s, jsonschema has %s" % (list(got)[:6], list(paths(s["title"], s))[:6]))
    r = box.export("json", "-s", "o.yaml", *(["-t", "t.yaml"] if types else []), *[a for u in ("units", "quantities") for a in ("-" + u[0], u + ".yaml")], "--extend-all-attributes", "-o", "again.json", *(["--types-output", "again.types"] if types else []))
    if not r.ok:
        raise Violation("the YAML export of an accepted model is rejected: %s" % r.tail(300))
    if box.json("again.json") != box.json("o.json"):
        raise Violation("the YAML export loaded again gives another model: %s" % ref.diff_flat(got, ref.unnest(box.json("again.json"))))
    return Info(True, ["accepted", c["t"].split(".")[0]])
