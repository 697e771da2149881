"""DDS-IDL export: parses as IDL and mirrors the tree."""
from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, emit, gen_nodes, gen_types, prob, text, types_tree
from ..idlfmt import Parser, literal
from ..runner import Violation, judging

RULE = (
    "Generated models (instances, arrays, enums, all datatypes, names that are IDL, C or Python keywords, texts with quotes and "
    "line breaks, struct types in several namespaces declared in any order) exported with and without --uuid and "
    "--all-idl-features; the result is parsed by a strict IDL parser with scoped name resolution (definition before use) and "
    "compared with the expanded tree and the types. Non-trivial: at least three leaves."
)
COUNTS = {"quick": 1800, "thorough": 30000}
ENUM = st.sampled_from(["LOW", "HIGH", "1", "2nd", "OFF_X", "a1", "Left", "UNKNOWN", "10", "Z9"])
CFG = Cfg(max_nodes=9, ext=0.1, comments=0.2, allowed_text=ENUM, max_types=5, nested=0.0)
KEYWORDS = ["In", "Class", "Object", "False", "Map", "Default", "Is", "And", "Long", "String", "Any", "TRUE", "ValueBase", "Auto", "None", "Not", "Sequence", "Return"]
IDL = {"uint8": "octet", "int8": "octet", "uint16": "unsigned short", "int16": "short", "uint32": "unsigned long", "int32": "long",
       "uint64": "unsigned long long", "int64": "long long", "boolean": "boolean", "float": "float", "double": "double", "string": "string"}


@st.composite
def strategy_(draw):
    d = draw
    types, structs = None, []
    if prob(d, 0.45):
        types, structs = gen_types(d, Cfg(**{**CFG.__dict__, "ext": 0.0}))
        if prob(d, 0.3):
            ns = d(st.sampled_from([f for f, a in types.items() if a["type"] == "branch"]))
            s = ns + "." + d(st.sampled_from(KEYWORDS))
            while s in types:  # names of namespaces
                s += "_"
            types[s] = {"type": "struct", "description": "keyword"}
            types[s + "." + d(st.sampled_from(["x", "in", "Long"]))] = {"type": "property", "datatype": d(st.sampled_from(["uint8", "string[]", "double"])), "description": "p"}
            structs = structs + [s]
            if prob(d, 0.5):
                types[ns + ".Zuser"] = {"type": "struct", "description": "uses keyword"}
                types[ns + ".Zuser.k"] = {"type": "property", "datatype": s + d(st.sampled_from(["", "[]"])), "description": "p"}
        if prob(d, 0.6):  # any order of declaration
            order = d(st.permutations(structs))
            new = {f: a for f, a in types.items() if a["type"] == "branch"}
            for s in order:
                new.update({f: a for f, a in types.items() if f == s or f.startswith(s + ".")})
            new.update(types)
            types = new
    base = gen_nodes(d, CFG, structs)
    for _ in range(d(st.integers(0, 2))):
        b = d(st.sampled_from([f for f, a in base.items() if a["type"] == "branch"]))
        f = b + "." + d(st.sampled_from(KEYWORDS))
        if f not in base:
            if d(st.booleans()):
                base[f] = {"type": "branch", "description": d(text(CFG))}
                f += ".Leaf"
            base[f] = {"type": "sensor", "datatype": d(st.sampled_from(["uint8", "string", "boolean[]"])), "description": d(text(CFG))}
            if base[f]["datatype"] == "string" and d(st.booleans()):
                base[f]["allowed"] = ["ON", "0"]
    return {"base": base, "types": types, "uuid": d(st.booleans()), "all": d(st.booleans())}


def strategy(tier):
    return strategy_()


def check(c, box):
    tree = ref.build([c["base"]])
    tt = types_tree(c)
    structs = ref.struct_names(tt)
    for f, n in tree.walk():
        if tt and n.name == tt.name or n.name.endswith("_M"):
            return Info(False, ["shadowed types root"])
        if n.type != "branch" and "" in (n.attrs.get("allowed") or []):
            return Info(False, ["empty enum literal"])
    if tt:
        for f, n in tt.walk():
            if f != tt.name and n.name == tt.name:
                return Info(False, ["shadowed types root"])
    args = emit(box, c) + ["-o", "out.idl"] + (["--uuid"] if c["uuid"] else []) + (["--all-idl-features"] if c["all"] else [])
    box.must("ddsidl", *args)
    nleaf = 0
    with judging("IDL file"):
        root = Parser(box.read("out.idl")).root

        def same(got, dt, fqn, what):
            """does the IDL type got denote the (resolved) VSS datatype?"""
            arr, b = dt.endswith("[]"), dt[:-2] if dt.endswith("[]") else dt
            if arr:
                if not isinstance(got, tuple):
                    raise Violation("%s %s is no sequence" % (what, fqn))
                got = got[1]
            if isinstance(got, tuple) or (IDL.get(b) != got if b in IDL else isinstance(got, str) or ".".join(got.path()) != b):
                raise Violation("%s %s: IDL type %s for %s" % (what, fqn, getattr(got, "path", lambda: got)(), dt))

        def walk(node, s, fqn):
            nonlocal nleaf
            if s.kind != "module":
                raise Violation("%s is a %s" % (fqn, s.kind))
            want = []
            for k in node.children.values():
                f = fqn + "." + k.name
                x = s.kids.get(k.name)
                if x is None:
                    raise Violation("no definition for %s" % f)
                if "datatype" not in k.attrs:
                    want.append(k.name)
                    walk(k, x, f)
                    continue
                a, nleaf = k.attrs, nleaf + 1
                dt = ref.resolve_type(a["datatype"], f, structs)
                if x.kind != "struct":
                    raise Violation("%s is a %s" % (f, x.kind))
                names = [m[0] for m in x.members]
                if names != (["uuid"] if c["uuid"] else []) + ["value"]:
                    raise Violation("members of %s are %s" % (f, names))
                if c["uuid"] and x.members[0][1] != "string":
                    raise Violation("uuid of %s is %s" % (f, x.members[0][1]))
                _, t, rng, default = x.members[-1]
                if a.get("allowed") and dt in ("string", "string[]"):
                    want.append(k.name + "_M")
                    e = t[1] if isinstance(t, tuple) and dt == "string[]" else t
                    if isinstance(e, (str, tuple)) or e.kind != "enum" or e.parent.parent is not s:
                        raise Violation("%s: type %s is no enum of its own" % (f, e))
                    lits = ["d" + v if v[0].isdigit() else v for v in a["allowed"]]
                    if e.literals != lits:
                        raise Violation("%s: enum literals %s, expected %s" % (f, e.literals, lits))
                else:
                    same(t, dt, f, "signal")
                want.append(k.name)
                if not c["all"]:
                    if x.consts or rng or default:
                        raise Violation("%s: features although not asked for" % f)
                    continue
                consts = {"type": a["type"], "description": a["description"]}
                if a.get("unit") is not None:
                    consts["unit"] = a["unit"]
                if x.consts != consts:
                    raise Violation("constants of %s are %r, expected %r" % (f, x.consts, consts))
                lo, hi = a.get("min"), a.get("max")
                if (rng is not None) != (lo is not None and hi is not None) or rng and (float(rng[0]), float(rng[1])) != (float(lo), float(hi)):
                    raise Violation("range of %s is %s, expected %s..%s" % (f, rng, lo, hi))
                v = a.get("default")
                if isinstance(v, list):
                    continue
                if (default is None) != (v is None):
                    raise Violation("default of %s is %s, expected %r" % (f, default, v))
                if v is not None:
                    k2, tok = default[0] if len(default) == 1 else ("", "")
                    if isinstance(v, bool):
                        ok = tok.lower() == str(v).lower()
                    elif isinstance(v, (int, float)):
                        ok = k2 == "n" and float(tok) == float(v)
                    elif a.get("allowed"):
                        ok = tok == ("d" + v if v[0].isdigit() else v)
                    else:
                        ok = k2 == "s" and literal(tok) == v
                    if not ok:
                        raise Violation("default of %s is %s, expected %r" % (f, default, v))
            if list(s.kids) != want:
                raise Violation("definitions in %s are %s, expected %s" % (fqn, list(s.kids), want))

        want = {tree.name} | ({tt.name} if tt and structs else set())
        if set(root.kids) - {tt.name if tt else ""} != want - {tt.name if tt else ""}:
            raise Violation("top level definitions %s, expected %s" % (list(root.kids), sorted(want)))
        walk(tree, root.kids[tree.name], tree.name)
        got = []

        def collect(s):
            for x in s.kids.values():
                if x.kind == "struct":
                    got.append(".".join(x.path()))
                    kids = dict(tt.walk())
                    if got[-1] not in structs:
                        raise Violation("unexpected struct %s" % got[-1])
                    ps = list(kids[got[-1]].children.values())
                    if [m[0] for m in x.members] != [p.name for p in ps]:
                        raise Violation("members of struct %s are %s, expected %s" % (got[-1], [m[0] for m in x.members], [p.name for p in ps]))
                    for m, p in zip(x.members, ps):
                        f = got[-1] + "." + p.name
                        same(m[1], ref.resolve_type(p.attrs["datatype"], f, structs), f, "property")
                elif x.kind == "enum":
                    raise Violation("unexpected enum %s" % x.name)
                else:
                    collect(x)

        if tt and tt.name in root.kids:
            collect(root.kids[tt.name])
        if sorted(got) != sorted(structs):
            raise Violation("structs %s, expected %s" % (sorted(got), sorted(structs)))
    return Info(nleaf >= 3, ["structs"] * bool(structs) + (["uuid"] if c["uuid"] else []) + (["all"] if c["all"] else []))
