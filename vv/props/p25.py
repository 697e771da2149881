"""GraphQL export: a valid schema that mirrors the tree."""
import re

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import UNITS, Cfg, emit, gen_nodes, text
from ..runner import Violation, judging

RULE = (
    "Generated models (instances, empty branches, names equal up to letter case, arrays, all datatypes, texts with quotes, "
    "line breaks and non-ASCII, deprecations, units, deleted nodes) exported with 0-2 additional leaf fields; the schema is "
    "parsed and validated as GraphQL and walked from the query to the leaves alongside the expanded tree. Malformed "
    "additional fields have to be rejected without output. Non-trivial: at least three leaves below the root."
)
COUNTS = {"quick": 1500, "thorough": 30000}
CFG = Cfg(max_nodes=12, max_depth=4, ext=0.05, comments=0.5, units=0.5)
INTS = {"int8", "uint8", "int16", "uint16", "int32"}
FLOATS = {"uint32", "int64", "uint64", "float", "double"}


@st.composite
def strategy_(draw):
    d = draw
    base = gen_nodes(d, CFG)
    if d(st.integers(0, 3)) == 3:
        leafs = [f for f in base if f.count(".") and base[f]["type"] != "branch"]
        for _ in range(d(st.integers(0, 2)) if leafs else 0):
            f = d(st.sampled_from(leafs))
            p, n = f.rsplit(".", 1)
            g = p + "." + d(st.sampled_from([n.upper(), n[0] + n[1:].lower(), n[0].lower() + n[1:], n + "Is", n[0] + n]))
            if g not in base and not any(x.startswith(g + ".") for x in base):
                base[g] = dict(base[f], description="twin")
                base[g].pop("constUID", None)
    gql = []
    for nm in d(st.lists(st.sampled_from(["source", "privacy", "src2"]), max_size=2, unique=True)):
        gql.append(nm + "," + d(text(CFG)).replace(",", ";"))
    bad = d(st.integers(0, 11))
    if bad == 11:
        gql.insert(d(st.integers(0, len(gql))), d(st.sampled_from(["source", "a,b,c", ""])))
    ov = {}
    if d(st.integers(0, 3)) == 3:
        f = d(st.sampled_from(list(base)))
        if "." in f:
            ov[f] = dict(base[f], delete=True)
    return {"base": base, "ov": ov, "gql": gql, "bad": bad == 11, "out": d(st.booleans())}


def strategy(tier):
    return strategy_()


def scalar(dt):
    b = dt[:-2] if dt.endswith("[]") else dt
    t = "Int" if b in INTS else "Float" if b in FLOATS else {"boolean": "Boolean", "string": "String"}[b]
    return "[%s]" % t if dt.endswith("[]") else t


def leaves(n):
    return 1 if "datatype" in n.attrs else sum(leaves(k) for k in n.children.values())


def check(c, box):
    from graphql import build_schema, validate_schema

    tree = ref.build([c["base"], c["ov"]])
    n = leaves(tree)
    args = emit(box, c, [c["ov"]] if c["ov"] else []) + ["-o", "out.graphql"]
    for g in c["gql"]:
        args += ["-g", g]
    if not n:
        return Info(False, ["no leaf"])
    if c["bad"]:
        if c["out"]:
            box.write("out.graphql", "old\n")
        r = box.export("graphql", *args)
        if r.ok:
            raise Violation("malformed --gql-fields %r accepted" % c["gql"])
        if box.exists("out.graphql") != c["out"] or c["out"] and box.read("out.graphql") != "old\n":
            raise Violation("output touched although --gql-fields %r was rejected" % c["gql"])
        return Info(True, ["bad option"])
    box.must("graphql", *args)
    labels = ["twins"] if any(v.get("description") == "twin" for v in c["base"].values()) else []
    seen = set()
    with judging("graphql file"):
        text = box.read("out.graphql")
        try:
            s = build_schema(text)
            errs = validate_schema(s)
        except Exception as e:
            raise Violation("not a valid GraphQL schema: %s" % e)
        if errs:
            raise Violation("not a valid GraphQL schema: %s" % [str(e) for e in errs[:3]])
        if s.mutation_type or s.subscription_type or list(s.query_type.fields) != ["vehicle"]:
            raise Violation("unexpected entry points")
        q = s.query_type.fields["vehicle"]
        if {k: str(a.type) for k, a in q.args.items()} != {"id": "String!", "after": "String"}:
            raise Violation("query arguments %s" % q.args)

        def walk(node, t, fqn):
            if t.name != fqn.replace(".", "_"):
                raise Violation("type of %s is %s" % (fqn, t.name))
            seen.add(t.name)
            a = node.attrs
            if t.description != a.get("description"):
                raise Violation("description of %s is %r, expected %r" % (fqn, t.description, a.get("description")))
            if "datatype" in a:
                desc, dep = a["description"], a.get("deprecation")
                want = {"value": (scalar(a["datatype"]), "Value: " + desc), "timestamp": ("String", "Timestamp: " + desc)}
                for g in c["gql"]:
                    nm, ds = g.split(",")
                    want[nm] = ("String", " %s: %s" % (ds, desc))
                if a.get("unit"):
                    want["unit"] = ("String", "Unit of " + desc)
                got = {k: (str(f.type), f.description) for k, f in t.fields.items()}
                if got != want:
                    raise Violation("fields of %s are %r, expected %r" % (fqn, got, want))
                for k, f in t.fields.items():
                    if f.deprecation_reason != dep:
                        raise Violation("deprecation of %s.%s is %r, expected %r" % (fqn, k, f.deprecation_reason, dep))
                return
            kids = [k for k in node.children.values() if leaves(k)]
            if len(kids) != len(t.fields):
                raise Violation("%s has fields %s, expected %s" % (fqn, list(t.fields), [k.name for k in kids]))
            for (fn, f), k in zip(t.fields.items(), kids):
                twin = [x for x in kids if x.name.lower() == k.name.lower()]
                ok = fn.lower() == k.name.lower()
                if len(twin) == 1 and ok:
                    ok = fn[0] == k.name[0].lower()
                    if re.fullmatch("([A-Z][a-z0-9]+)+", k.name):
                        ok = fn == k.name[0].lower() + k.name[1:]
                if not ok:
                    raise Violation("field for %s.%s is %s" % (fqn, k.name, fn))
                if f.description != k.attrs.get("description") or f.deprecation_reason != k.attrs.get("deprecation"):
                    raise Violation("field %s of %s: description %r deprecation %r" % (fn, fqn, f.description, f.deprecation_reason))
                walk(k, f.type, fqn + "." + k.name)

        walk(tree, q.type, tree.name)
        extra = {t for t in s.type_map if not t.startswith("__")} - seen - {"Query", "String", "Int", "Float", "Boolean", "ID"}
        if extra:
            raise Violation("unexpected types %s" % sorted(extra))
    return Info(n >= 3, labels + (["fields"] if c["gql"] else []) + (["deleted"] if c["ov"] else []))
