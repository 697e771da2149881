"""ApiGear export: one consistent module holding the whole tree."""
import os

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, emit, models, prob, types_tree
from ..runner import Violation, judging

RULE = (
    "Generated models (instances, arrays, enums of every type, deprecated signals, branches, structs and properties, struct types "
    "in several namespaces) exported with any subset of the template options and nested relative or absolute template paths; "
    "interfaces, properties, enums and structs are compared with the tree, every type has to be defined in the module. "
    "Non-trivial: at least three properties."
)
COUNTS = {"quick": 1600, "thorough": 30000}
ENUM = st.sampled_from(["LOW", "HIGH", "1", "2nd", "OFF_X", "a1", "Left", "UNKNOWN", "1F", "0x10", "Z9", "1.2.3", "2.0"])
CFG = Cfg(max_nodes=9, ext=0.1, comments=0.3, allowed_text=ENUM, max_types=5, structs=0.4, nested=0.0)
TEMPLATES = {"unreal": "apigear-io/template-unreal", "cpp": "apigear-io/template-cpp14", "qt5": "apigear-io/template-qt5", "qt6": "apigear-io/template-qtcpp"}
BASIC = {"boolean": "bool", "float": "float32", "double": "float64", "string": "string", "int64": "int64", "uint64": "int64"}


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(CFG))
    for part in (m["base"], m["types"] or {}):
        for k in part:
            if prob(d, 0.12):
                part[k]["deprecation"] = "v5 gone"
    ks = [k for k in m["base"] if "." in k]
    if prob(d, 0.15):
        m["base"][d(st.sampled_from(ks))]["delete"] = True
    layers = {}
    for k in d(st.lists(st.sampled_from(sorted(TEMPLATES)), unique=True, max_size=4)):
        layers[k] = d(st.sampled_from(["gen", "./svc", "a/b/gen", "../up/x", "/tmp/abs/gen"]))
    return {"m": m, "layers": layers, "dir": d(st.sampled_from(["outdir", "out/deep/dir"])), "again": prob(d, 0.1)}


def strategy(tier):
    return strategy_()


def uniq(items, what):
    names = [i["name"] for i in items]
    if len(set(names)) != len(names):
        raise Violation("%s defined twice: %s" % (what, names))
    return dict(zip(names, items))


def name(n):
    return n.name + "_Deprecated" if n.attrs.get("deprecation") else n.name


def full(n, f):
    return f.replace(".", "_") + ("_Deprecated" if n.attrs.get("deprecation") else "")


def member(v):
    s = str(v)
    return "d" + s.replace(".", "_") if s[0].isdigit() else s


def value(v, dt):
    if type(v) is int and dt != "float":
        return v
    s = str(v)
    if isinstance(v, str) and s[0].isdigit():
        try:
            return int(s, 16)
        except ValueError:
            pass
    return None


def check(c, box):
    m = c["m"]
    for part in (m["base"], m["types"] or {}):
        for a in part.values():
            al = a.get("allowed") or []
            if len({member(v) if v != "" else "" for v in al}) != len(al) or "" in al:
                return Info(False, ["ambiguous members"])
    args = emit(box, m) + ["--output-dir", c["dir"]]
    for k, p in c["layers"].items():
        args += ["--apigear-template-%s-path" % k, p]
    box.must("apigear", *args)
    if c.get("again"):
        before = box.tree_listing()
        r = box.export("apigear", *args)
        if r.ok:
            raise Violation("the output directory exists and nothing is generated, but the run exits 0")
        if box.tree_listing() != before:
            raise Violation("the run fails, but changes existing output")
    tree = ref.build([m["base"]])
    tt = types_tree(m)
    tnodes = dict(tt.walk()) if tt else {}
    structs = ref.struct_names(tt)
    nprop = 0
    with judging("apigear files"):
        if sorted(os.listdir(box.path(c["dir"]))) != sorted([tree.name + ".module.yaml", tree.name + ".solution.yaml"]):
            raise Violation("files %s" % os.listdir(box.path(c["dir"])))
        sol = box.yaml(c["dir"] + "/%s.solution.yaml" % tree.name)
        mod = box.yaml(c["dir"] + "/%s.module.yaml" % tree.name)
        if sol["name"] != tree.name or mod["name"] != tree.name or sol["schema"] != "apigear.solution/1.0" or mod["schema"] != "apigear.module/1.0":
            raise Violation("heads %s %s" % (sol, {k: v for k, v in mod.items() if not isinstance(v, list)}))
        want = {k: os.path.normpath(p) for k, p in (c["layers"] or {"cpp": "cppservice"}).items()}
        got = uniq(sol["layers"], "layer")
        if {k: os.path.normpath(x["output"]) for k, x in got.items()} != want:
            raise Violation("layers %s, expected %s" % ({k: x["output"] for k, x in got.items()}, want))
        for k, x in got.items():
            if x["template"] != TEMPLATES[k] or x["inputs"] != [tree.name + ".module.yaml"]:
                raise Violation("layer %s" % x)
        ifs = uniq(mod["interfaces"], "interface")
        enums = uniq(mod.get("enums", []), "enum")
        sts = uniq(mod.get("structs", []), "struct")
        if len(set(ifs) | set(enums) | set(sts)) != len(ifs) + len(enums) + len(sts):
            raise Violation("a name is used for an interface, enum or struct at once")
        used = set()

        def prop(p, n, f, enum):
            a = n.attrs
            if p["name"] != name(n):
                raise Violation("name of %s is %s" % (f, p["name"]))
            if p.get("description") != (a["description"] or None):
                raise Violation("description of %s is %r, expected %r" % (f, p.get("description"), a["description"]))
            dt = ref.resolve_type(a["datatype"], f, structs)
            arr, b = dt.endswith("[]"), dt[:-2] if dt.endswith("[]") else dt
            if enum and a.get("allowed"):
                want = full(n, f) + "_Value"
                used.add(want)
                if p["type"] != want or want not in enums:
                    raise Violation("%s has type %s, expected the enum %s" % (f, p["type"], want))
                got = [(x["name"], x.get("value")) for x in enums[want]["members"]]
                exp = [(member(v), value(v, dt)) for v in a["allowed"]]
                if got != exp:
                    raise Violation("members of %s are %s, expected %s" % (want, got, exp))
                return
            t = BASIC.get(b, "int32" if b in ref.INT_RANGES else None) or full(tnodes[b], b)
            if p["type"] != t or p.get("array", False) != arr:
                raise Violation("%s is %s (array %s), expected %s (array %s)" % (f, p["type"], p.get("array"), t, arr))
            if t not in set(BASIC.values()) | {"int32"} and t not in sts:
                raise Violation("type %s of %s is not defined" % (t, f))

        expected = []
        for f, n in tree.walk():
            if "datatype" in n.attrs:
                continue
            kids = [k for k in n.children.values() if "datatype" in k.attrs]
            if not kids:
                continue
            i = full(n, f)
            expected.append(i)
            if i not in ifs:
                raise Violation("no interface for %s in %s" % (f, list(ifs)))
            ps = ifs[i]["properties"]
            if [p["name"] for p in ps] != [name(k) for k in kids]:
                raise Violation("properties of %s are %s, expected %s" % (f, [p["name"] for p in ps], [name(k) for k in kids]))
            for p, k in zip(ps, kids):
                nprop += 1
                prop(p, k, f + "." + k.name, True)
        if list(ifs) != expected:
            raise Violation("interfaces %s, expected %s" % (list(ifs), expected))
        if set(enums) != used:
            raise Violation("unused enums %s" % sorted(set(enums) - used))
        if sorted(sts) != sorted(full(tnodes[s], s) for s in structs):
            raise Violation("structs %s, expected %s" % (sorted(sts), structs))
        for s in structs:
            kids = list(tnodes[s].children.values())
            fs = sts[full(tnodes[s], s)]["fields"]
            if len(fs) != len(kids):
                raise Violation("fields of %s are %s" % (s, [x["name"] for x in fs]))
            for p, k in zip(fs, kids):
                prop(p, k, s + "." + k.name, False)
    return Info(nprop >= 3, ["again"] * bool(c.get("again")) + ["structs"] * bool(structs) + ["layers:%d" % len(c["layers"])])
