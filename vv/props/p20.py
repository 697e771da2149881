"""The binary export decodes, by the documented format, to exactly the model."""
from hypothesis import strategies as st

from .. import ref
from ..binfmt import decode
from ..engine import Info
from ..gen import Cfg, emit, gen_nodes, prob
from ..runner import Violation, judging

RULE = (
    "Generated models with every attribute (boundary numbers, enums of every type, arrays, non-ASCII text, strings of "
    "254-257 and 65535-65536 bytes, 254-257 children, the validate attribute, instances, deletions), exported as binary "
    "with and without --uuid and validate, decoded by an independent decoder of the documented format; models that do "
    "not fit into the format have to be rejected without output. Non-trivial: more than three nodes."
)
COUNTS = {"quick": 2000, "thorough": 32000}
CFG = Cfg(max_nodes=10, instances=0.3, ext=0.1, comments=0.2, uids=0.1)


@st.composite
def strategy_(draw):
    d = draw
    validate = d(st.booleans())
    limit = d(st.sampled_from(["none", "none", "none", "text", "allowed", "default", "children", "name", "descr", "unit"]))
    base = gen_nodes(d, CFG)
    root = next(iter(base))
    for k in base:
        if validate and prob(d, 0.25):
            base[k]["validate"] = d(st.sampled_from(["read-write", "write-only", "read-write+consent"]))
    ch = d(st.sampled_from(["x", "\u00e9", "\U0001f600"]))

    def blob(n):
        k = len(ch.encode())
        return ch * (n // k) + "y" * (n % k)

    n8 = d(st.sampled_from([100, 128, 254, 255, 256, 257, 300]))
    leaf = {"type": "attribute", "datatype": "string", "description": "limit"}
    if limit == "allowed":
        base[root + ".Lim"] = {**leaf, "allowed": ["a", blob(n8)]}
    elif limit == "default":
        base[root + ".Lim"] = {**leaf, "default": blob(n8)}
    elif limit == "text":
        base[root + ".Lim"] = {**leaf, "description": blob(n8), **({"validate": blob(n8)} if validate else {})}
    elif limit == "descr":
        base[root + ".Lim"] = {**leaf, "description": blob(d(st.sampled_from([65534, 65535, 65536, 65540])))}
    elif limit == "unit":
        base[root + ".Lim"] = {**leaf, "allowed": [blob(200)[: d(st.integers(50, 60))] + str(i) for i in range(d(st.sampled_from([3, 200, 400])))]}
    elif limit == "name":
        base[root + ".L" + "m" * (n8 - 1)] = dict(leaf)
    elif limit == "children":
        for i in range(d(st.sampled_from([250, 254, 255, 256, 257]))):
            base[root + ".Big.C%d" % i] = dict(leaf)
        base[root + ".Big"] = {"type": "branch", "description": "many"}
    ks = [k for k in base if "." in k]
    if prob(d, 0.15):
        base[d(st.sampled_from(ks))]["delete"] = True
    return {"base": base, "uuid": d(st.booleans()), "validate": validate, "limit": limit, "pre": prob(d, 0.3)}


def strategy(tier):
    return strategy_()


def text(v):
    return "" if v is None else str(v)


def check(c, box):
    tree = ref.build([c["base"]])
    want = {}
    fits = True
    for f, n in tree.walk():
        a = ref.exported(n.attrs, f)
        d = {
            "name": n.name,
            "type": a["type"],
            "uuid": ref.uuid_of(f) if c["uuid"] else "",
            "description": a["description"],
            "datatype": a.get("datatype", ""),
            "min": text(a.get("min")),
            "max": text(a.get("max")),
            "unit": text(a.get("unit")),
            "allowed": [str(x) for x in a.get("allowed") or []],
            "default": text(a.get("default")),
            "validate": text(a.get("validate")),
            "children": len(n.children),
        }
        want[f] = d
        fits &= all(len(d[k].encode()) <= 255 for k in ("name", "type", "uuid", "datatype", "min", "max", "unit", "default", "validate"))
        fits &= len(d["description"].encode()) <= 65535 and d["children"] <= 255
        fits &= all(len(x.encode()) <= 255 for x in d["allowed"]) and sum(len(x.encode()) + 2 for x in d["allowed"]) <= 65535
    args = emit(box, {"base": c["base"]}) + ["-o", "out.bin"] + (["--uuid"] if c["uuid"] else [])
    args += ["-e", "validate"] if c["validate"] else []
    if c["pre"]:
        box.write("out.bin", "old")
    r = box.export("binary", *args)
    labels = ["limit:" + c["limit"], "fits" if fits else "does not fit"]
    if not fits:
        if r.ok:
            raise Violation("a model that does not fit into the format is exported")
        if box.exists("out.bin") and box.read("out.bin", "rb") != (b"old" if c["pre"] else None):
            raise Violation("rejected a model that does not fit, but wrote an output")
        return Info(True, labels)
    if not r.ok:
        raise Violation("a valid model is rejected: %s" % r.tail())
    with judging("binary file"):
        got = decode(box.read("out.bin", "rb"))
        if list(got) != list(want):
            raise Violation("nodes %s, expected %s" % ([k for k in got if k not in want][:3] or list(got)[:5], [k for k in want if k not in got][:3] or list(want)[:5]))
        msg = ref.diff_flat(want, got)
        if msg:
            raise Violation(msg)
    return Info(len(want) > 3, labels)
