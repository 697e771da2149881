"""Whatever is wrong with the input: non-zero exit and no output, for every exporter."""
import os

from hypothesis import strategies as st

from .. import bad
from ..engine import Info
from ..exporters import ALL, EXPAND, NO_TYPES, UUID, out_args
from ..gen import Cfg, models
from ..runner import Violation

RULE = (
    "A generated valid model plus one defect out of about 45 kinds (tree structure, attribute values, broken YAML, "
    "includes, overlays, units, quantities, struct types, strictness, UID collisions, missing files), given to one of "
    "the 14 exporters with generated options, with and without already existing output files. All kinds and exporters "
    "are sampled uniformly. Non-trivial: every case whose defect could be placed."
)
COUNTS = {"quick": 2800, "thorough": 50000}
CFG = Cfg(max_nodes=5, max_depth=3, instances=0.2, text="plain", ext=0.0)
KINDS = bad.STRUCTURAL + bad.VALUES + bad.FILES + bad.STRICT + bad.TYPES + ["no_such_vspec", "no_such_overlay", "no_such_units", "vspec_is_dir", "uid_collision", "bad_option", "binary_garbage"]


@st.composite
def strategy_(draw):
    d = draw
    kind = d(st.sampled_from(KINDS))
    ex = d(st.sampled_from(ALL))
    if kind == "uid_collision":
        ex = "id"
    if kind.startswith("types_") and ex in NO_TYPES:
        ex = d(st.sampled_from([e for e in ALL if e not in NO_TYPES]))
    cfg = CFG
    if kind.startswith("types_"):
        cfg = Cfg(**{**CFG.__dict__, "structs": 1.0})
    m = d(models(cfg))
    c = None
    if kind in bad.STRUCTURAL + bad.VALUES + bad.FILES + bad.STRICT + bad.TYPES:
        c = bad.make(d, kind, m["base"], m["types"])
        if c is None:
            kind = "no_type"
            c = bad.make(d, kind, m["base"], m["types"])
    else:
        c = {"kind": kind, "base": m["base"], "types": m["types"], "units": None, "quantities": None, "raw": {}, "args": [], "append": ""}
        if kind == "no_such_overlay":
            c["args"] += ["-l", "none.vspec"]
        elif kind == "no_such_units":
            c["args"] += [d(st.sampled_from(["-u", "-q"])), "none.yaml"]
        elif kind == "bad_option":
            c["args"] += d(st.sampled_from([["--nonsense"], ["-a", "nonsense"], ["-e", "description"], ["-I", "nodir"], ["extra"]]))
        elif kind == "uid_collision":
            root = next(iter(c["base"]))
            u = d(st.sampled_from(["0x12345678", "0xabcdef00"]))
            c["base"][root]["constUID"] = u
            c["base"][root + ".Twin"] = {"type": "sensor", "datatype": "uint8", "description": "t", "constUID": u if d(st.booleans()) else u.upper().replace("X", "x")}
        elif kind == "binary_garbage":
            c["append"] = "\n\x00\x01\n"
    opts = []
    if ex in EXPAND and d(st.booleans()):
        opts.append("--no-expand")
    if ex in UUID and d(st.booleans()):
        opts.append("--uuid")
    return {"c": c, "ex": ex, "opts": opts, "pre": d(st.booleans()), "sep": d(st.booleans())}


def strategy(tier):
    return strategy_()


def check(case, box):
    c, ex = case["c"], case["ex"]
    if ex in NO_TYPES:
        # make the model readable without types (unless that is the defect)
        if any("." in str(a.get("datatype", "")) for a in c["base"].values() if isinstance(a, dict)):
            return Info(False)
        c = {**c, "types": None}
    args = bad.emit_bad(box, c)
    if c["kind"] == "no_such_vspec":
        args = ["-s", "none.vspec"] + args[2:]
    elif c["kind"] == "vspec_is_dir":
        os.makedirs(box.path("adir"))
        args = ["-s", "adir"] + args[2:]
    types = "-t" in args
    oa = out_args(ex, types, case["sep"])
    if case["pre"]:
        for o in oa:
            if o.startswith("out."):
                box.write(o, "old content of " + o)
        if ex == "protobuf":
            box.write("outtypes/Types/Types.proto", "old proto")
        if ex == "samm":
            box.write("outdir/old.ttl", "old ttl")
    before = box.tree_listing()
    dirs = listing_dirs(box)
    r = box.export(ex, *args, *oa, *case["opts"])
    what = "%s with a defective input (%s)" % (ex, c["kind"])
    if r.ok:
        raise Violation("%s exits 0: %s" % (what, r.tail()))
    if r.signal:
        raise Violation("%s dies from signal %d" % (what, r.signal))
    after = box.tree_listing()
    if after != before:
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        raise Violation("%s fails but creates or changes %s" % (what, ch[:5]))
    if listing_dirs(box) != dirs:
        raise Violation("%s fails but creates directories %s" % (what, sorted(listing_dirs(box) - dirs)))
    return Info(True, [ex, "kind:" + c["kind"], "existing" if case["pre"] else "fresh"])


def listing_dirs(box):
    return {os.path.relpath(os.path.join(d, x), box.root) for d, ds, _ in os.walk(box.root) for x in ds}
