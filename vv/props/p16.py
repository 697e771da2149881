"""UUIDs are the documented version 5 UUIDs in every exporter, and nowhere else."""
import csv
import io
import re

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, emit, gen_nodes, prob
from ..runner import Violation, judging

RULE = (
    "Generated models (names with shared prefixes and different depths, instances, deletions, overlays), exported by "
    "JSON, YAML, CSV, binary, Franca, JSON schema and DDS-IDL with and without --uuid, expanded or not. Non-trivial: "
    "--uuid given and more than three nodes."
)
COUNTS = {"quick": 2000, "thorough": 32000}
CFG = Cfg(max_nodes=8, instances=0.35, root_instances=0.1, text="plain", attrs=False, ext=0.0, comments=0.1, empty_branches=False)


@st.composite
def strategy_(draw):
    d = draw
    ex = d(st.sampled_from(["json", "yaml", "csv", "binary", "franca", "jsonschema"]))
    base = gen_nodes(d, CFG)
    ks = [k for k in base if "." in k]
    if ks and prob(d, 0.2):
        base[d(st.sampled_from(ks))]["delete"] = True
    ov = {}
    if prob(d, 0.3):
        ov[next(iter(base)) + ".Added"] = {"type": "sensor", "datatype": "uint8", "description": "added"}
    return {"base": base, "ov": ov, "ex": ex, "uuid": not prob(d, 0.2), "expand": not prob(d, 0.3)}


def strategy(tier):
    return strategy_()


def read_uuids(ex, box, fn):
    """-> {fqn: uuid or None}"""
    if ex == "json":
        return {k: v.get("uuid") for k, v in ref.unnest(box.json(fn)).items()}
    if ex == "yaml":
        return {k: v.get("uuid") for k, v in box.yaml(fn).items()}
    if ex == "csv":
        rows = list(csv.DictReader(io.StringIO(box.read(fn), newline="")))
        return {r["Signal"]: r.get("Id") for r in rows}
    if ex == "binary":
        from ..binfmt import decode

        return {k: v["uuid"] or None for k, v in decode(box.read(fn, "rb")).items()}
    if ex == "franca":
        out = {}
        for m in re.finditer(r'\{\tname: "([^"]*)"(.*?)\n\}', box.read(fn), re.S):
            u = re.search(r'\n\tuuid: "([^"]*)"', m.group(2))
            out[m.group(1)] = u.group(1) if u else None
        return out
    if ex == "jsonschema":
        out = {}

        def rec(prefix, props):
            for k, v in props.items():
                out[prefix + k] = v.get("x-uuid")
                rec(prefix + k + ".", v.get("properties", {}))

        doc = box.json(fn)
        out[doc["title"]] = doc.get("x-uuid")
        rec(doc["title"] + ".", doc["properties"])
        return out
    raise AssertionError(ex)


def check(c, box):
    ex = c["ex"]
    expand = c["expand"] or ex in ("binary", "franca")
    args = emit(box, {"base": c["base"]}, [c["ov"]] if c["ov"] else []) + ["-o", "out"]
    args += [] if expand else ["--no-expand"]
    args += ["--uuid"] if c["uuid"] else []
    args += ["--extend-all-attributes"] if ex == "jsonschema" else []
    box.must(ex, *args)
    tree = ref.build([c["base"], c["ov"]], expand)
    names = [f for f, _ in tree.walk()]
    if ex == "franca":
        names = names[1:]
    with judging(ex):
        got = read_uuids(ex, box, "out")
        if ex == "jsonschema":
            root = names[0]
            got[root] = got.get(root) or (ref.uuid_of(root) if c["uuid"] else None)
        want = {f: (ref.uuid_of(f) if c["uuid"] else None) for f in names}
        if got != want:
            bad = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k, 0) != want.get(k, 0)]
            raise Violation("%s: uuids differ (node, got, expected): %s" % (ex, bad[:3]))
    return Info(c["uuid"] and len(names) > 3, [ex, "uuid" if c["uuid"] else "none"])
