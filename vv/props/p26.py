"""JSON schema export: accepts exactly the documents the model allows."""
import json

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, emit, models, prob, types_tree
from ..jschema import accepts
from ..runner import Violation, judging

RULE = (
    "Generated models (all datatypes, arrays, bounds and enums incl. 0/false/empty, defaults, instances, struct datatypes, "
    "extended attributes, deleted nodes) exported with every combination of the options. A document conforming to the model "
    "has to be accepted by an independent validator of the schema; every document that differs in one leaf (out of bounds, "
    "not in enum, other type), lacks one node or has an additional one has to be accepted or rejected as the model and the "
    "options say; annotations are compared with the model. Non-trivial: at least three leaves."
)
COUNTS = {"quick": 1600, "thorough": 30000}
CFG = Cfg(structs=0.3, max_nodes=9, ext=0.25, comments=0.4)
XATTR = {"type": "x-VSStype", "datatype": "x-datatype", "deprecation": "x-deprecation", "unit": "x-unit", "aggregate": "x-aggregate", "comment": "x-comment", "uuid": "x-uuid"}


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(CFG))
    ks = [k for k in m["base"] if "." in k]
    if ks and prob(d, 0.15):
        m["base"][d(st.sampled_from(ks))]["delete"] = True
    for k in m["base"]:
        if m["base"][k]["type"] == "branch" and prob(d, 0.1):
            m["base"][k]["aggregate"] = d(st.booleans())
    return {"m": m, "pretty": d(st.booleans()), "uuid": d(st.booleans()), "expand": not prob(d, 0.3), "ext": d(st.sampled_from(["all", "all", "none", "source"])),
            "noadd": d(st.booleans()), "req": d(st.booleans())}


def strategy(tier):
    return strategy_()


def kind(dt, v):
    if dt in ref.INT_RANGES:
        return isinstance(v, int) and not isinstance(v, bool)
    if dt in ("float", "double"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    return isinstance(v, bool if dt == "boolean" else str)


def element_ok(a, dt, v):
    if not kind(dt, v):
        return False
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        if a.get("min") is not None and v < a["min"] or a.get("max") is not None and v > a["max"]:
            return False
    if a.get("allowed"):
        return any(type(x) is bool is type(v) and x is v or type(x) is not bool and type(v) is not bool and x == v for x in a["allowed"])
    return True


def elements(a, dt):
    """Values of the right kind, inside and outside of the constraints."""
    out = list(a.get("allowed") or [])
    if dt == "boolean":
        return out + [True, False]
    if dt == "string":
        return out + ["", "zz-other"]
    for k in ("min", "max"):
        if a.get(k) is not None:
            out += [a[k], a[k] - 1, a[k] + 1]
    d = a.get("default")
    out += d if isinstance(d, list) else [] if d is None else [d]
    out += [0, 1, 77]
    if dt in ref.INT_RANGES:
        lo, hi = ref.INT_RANGES[dt]
        out = [v for v in out if lo <= v <= hi]
    return [v for v in out if kind(dt, v)]


def samples(a, dt):
    """(value, acceptable) pairs for a leaf."""
    if dt.endswith("[]"):
        b = dt[:-2]
        n = a.get("arraysize") or None
        if b not in ref.PRIMITIVES:
            return [([{}] * (n or 1), True), ({}, False), (1, False)]
        es = elements(a, b)
        good = [e for e in es if element_ok(a, b, e)]
        out = [("no array", False), (5, False), ({}, False)]
        for e in es:
            out.append(([e] * (n or 2), element_ok(a, b, e)))
            if not n and good:
                out.append(([good[0], e], element_ok(a, b, e)))
        if not n:
            out.append(([], True))
        return out
    if dt not in ref.PRIMITIVES:
        return [({}, True), ([], False), ("x", False)]
    es = elements(a, dt)
    bad = [v for v in ["x", 5, True, 2.5, [], {}] if not kind(dt, v)]
    return [(e, element_ok(a, dt, e)) for e in es] + [(b, False) for b in bad]


def check(c, box):
    m = c["m"]
    args = emit(box, m)
    ext = ()
    if c["ext"] == "all":
        args += ["--extend-all-attributes"]
        ext = "all"
    elif c["ext"] != "none":
        args += ["-e", c["ext"]]
        ext = (c["ext"],)
    args += ["--uuid"] if c["uuid"] else []
    args += [] if c["expand"] else ["--no-expand"]
    args += ["--no-additional-properties"] if c["noadd"] else []
    args += ["--require-all-properties"] if c["req"] else []
    box.must("jsonschema", *args, "-o", "out.json", *(["--pretty"] if c["pretty"] else []))
    tt = types_tree(m)
    structs = ref.struct_names(tt)
    tree = ref.build([m["base"]], c["expand"])
    nleaf = 0
    with judging("json schema"):
        text = box.read("out.json")
        s = json.loads(text)
        if c["pretty"] != ("\n" in text.strip()):
            raise Violation("--pretty not honoured")
        if c["pretty"]:
            box.must("jsonschema", *args, "-o", "out2.json")
            if not ref.strict_eq(s, box.json("out2.json")) or json.dumps(s) != json.dumps(box.json("out2.json")):
                raise Violation("--pretty changes more than white space")
        if s.get("title") != tree.name or s.get("type") != "object" or "2020-12" not in s.get("$schema", ""):
            raise Violation("title %r, type %r, $schema %r" % (s.get("title"), s.get("type"), s.get("$schema")))
        cplx = s.pop("x-ComplexDataTypes", None)
        if (cplx is not None) != bool(tt and ext == "all"):
            raise Violation("x-ComplexDataTypes %s" % ("missing" if cplx is None else "unexpected"))
        extnames = set()

        def meta(node, x, fqn, uuid):
            """Structure and annotations of the schema for one node."""
            want = ref.exported(node.attrs, fqn, structs, ext)
            if uuid:
                want["uuid"] = ref.uuid_of(fqn)
            for k in ("description", "default"):
                if not ref.strict_eq(x.get(k, "none"), want.get(k, "none")):
                    raise Violation("%s: %s is %r, expected %r" % (fqn, k, x.get(k, "-"), want.get(k, "-")))
            for k, n in XATTR.items():
                w = want.get(k) if ext == "all" else None
                if k == "aggregate" and not w or w == "":
                    continue
                if not ref.strict_eq(x.get(n), w):
                    raise Violation("%s: %s is %r, expected %r" % (fqn, n, x.get(n), w))
            for k in node.attrs:
                if k not in ref.CORE and k not in ref.NOT_EXPORTED:
                    if (k in x) != (k in want) or k in x and not ref.strict_eq(x[k], want[k]):
                        raise Violation("%s: extended attribute %s is %r, expected %r" % (fqn, k, x.get(k, "-"), want.get(k, "-")))
                    extnames.add(k)
            foreign = set(x) - set(XATTR.values()) - set(node.attrs) - {"type", "properties", "required", "additionalProperties", "minimum", "maximum", "enum", "items", "minItems", "maxItems", "title", "$schema", "description", "default", "deprecated"}
            if foreign:
                raise Violation("%s: unexpected %s" % (fqn, sorted(foreign)))
            if "datatype" in node.attrs:
                if "properties" in x:
                    raise Violation("%s has properties" % fqn)
                return
            if list(x.get("properties", "none")) != list(node.children):
                raise Violation("%s has properties %s, expected %s" % (fqn, list(x.get("properties", [])), list(node.children)))
            for k, n in node.children.items():
                meta(n, x["properties"][k], fqn + "." + k, uuid)

        meta(tree, s, tree.name, c["uuid"])
        if cplx is not None:
            if list(cplx) != [tt.name]:
                raise Violation("x-ComplexDataTypes has %s" % list(cplx))
            meta(tt, cplx[tt.name], tt.name, False)

        def document(node, fqn):
            if "datatype" not in node.attrs:
                return {k: document(n, fqn + "." + k) for k, n in node.children.items()}
            dt = ref.resolve_type(node.attrs["datatype"], fqn, structs)
            return next((v for v, ok in samples(node.attrs, dt) if ok), None)

        def explore(tree, fqn, schema):
            nonlocal nleaf
            doc = document(tree, fqn)
            if not accepts(schema, doc, extnames):
                raise Violation("conforming document rejected: %s" % json.dumps(doc)[:500])

            def walk(node, fqn, doc, sub):
                """doc: the whole document, sub: the part of it for node (mutated in place)"""
                nonlocal nleaf
                for k, n in node.children.items():
                    f = fqn + "." + k
                    old = sub[k]
                    if "datatype" in n.attrs:
                        nleaf += 1
                        dt = ref.resolve_type(n.attrs["datatype"], f, structs)
                        for v, ok in samples(n.attrs, dt):
                            sub[k] = v
                            if accepts(schema, doc, extnames) != ok:
                                raise Violation("%s (%s): %r is %s" % (f, dt, v, "rejected" if ok else "accepted"))
                    else:
                        walk(n, f, doc, sub[k])
                    del sub[k]
                    if accepts(schema, doc, extnames) == c["req"]:
                        raise Violation("document without %s is %s" % (f, "accepted" if c["req"] else "rejected"))
                    sub[k] = old
                sub["Zz9"] = 1
                if accepts(schema, doc, extnames) == c["noadd"]:
                    raise Violation("document with additional %s.Zz9 is %s" % (fqn, "accepted" if c["noadd"] else "rejected"))
                del sub["Zz9"]

            walk(tree, fqn, doc, doc)

        explore(tree, tree.name, s)
        if cplx is not None:
            for f, n in tt.walk():
                if n.type == "struct":
                    x = cplx[tt.name]
                    for part in f.split(".")[1:]:
                        x = x["properties"][part]
                    explore(n, f, x)
                    if accepts(x, 1, extnames):
                        raise Violation("struct %s accepts a number" % f)
    return Info(nleaf >= 3, ["structs"] * bool(tt) + ["expand" if c["expand"] else "no-expand", "ext:" + c["ext"], "noadd" if c["noadd"] else "add", "req" if c["req"] else "noreq"])
