"""Protobuf export: well-formed proto3 with one faithful message per branch and struct."""
import os

from hypothesis import strategies as st

from .. import protofmt, ref
from ..engine import Info
from ..gen import Cfg, emit, gen_nodes, gen_types, prob, types_tree
from ..runner import Violation, judging

RULE = (
    "Generated models with instances, arrays, all datatypes and (half of them) struct types in one or more namespaces, "
    "exported with and without --add-optional and --static-uid (with distinct, equal, nearly equal, missing, reserved "
    "and zero UIDs), partly twice into the same directory; a strict proto3 parser reads all files, resolves every type "
    "through the imports and compares messages, fields, types, labels and numbers with the model. Non-trivial: at "
    "least two messages."
)
COUNTS = {"quick": 1600, "thorough": 30000}
CFG = Cfg(max_nodes=9, instances=0.3, ext=0.0, comments=0.1, text="plain", attrs=False, max_types=5, nested=0.0)
MAP = {"uint8": "uint32", "uint16": "uint32", "int8": "int32", "int16": "int32", "boolean": "bool"}


@st.composite
def strategy_(draw):
    d = draw
    uid = d(st.sampled_from(["none", "none", "ok", "ok", "near", "missing", "reserved", "edge", "any"]))
    types, structs = (None, [])
    if d(st.booleans()):
        types, structs = gen_types(d, CFG)
    base = gen_nodes(d, CFG, structs)
    if uid != "none":
        n = 0
        for m in (base, types or {}):
            for k, a in m.items():
                n += 1
                v = 0x00800000 + n * 8 * d(st.sampled_from([1, 1000, 50000]))
                a["staticUID"] = "0x%08X" % v
        ks = [k for k in base if "." in k]
        ps = [k for k, a in (types or {}).items() if a["type"] == "property"]
        if uid == "near":
            k = d(st.sampled_from(ks + ps))
            m = base if k in base else types
            k2 = k + "2"
            m[k2] = dict(base[k] if m is base else types[k])
            m[k2].pop("instances", None)
            if m[k2]["type"] == "branch":
                m[k2]["staticUID"] = m[k]["staticUID"]
            v = int(m[k]["staticUID"], 16)
            m[k2]["staticUID"] = "0x%08X" % (v + d(st.sampled_from([0, 1, 7, 8, 9])))
        elif uid == "missing":
            k = d(st.sampled_from(list(base) + list(types or {})))
            (base if k in base else types)[k].pop("staticUID")
        elif uid in ("reserved", "edge"):
            k = d(st.sampled_from(ks + ps))
            v = d(st.sampled_from([18999, 19000, 19001, 19500, 19999, 20000] if uid == "reserved" else [0, 1, 2, 2**29 - 1])) * 8 + d(st.integers(0, 7))
            (base if k in base else types)[k]["staticUID"] = d(st.sampled_from(["0x%08X", "0x%08x"])) % v
        elif uid == "any":
            for k in base:
                base[k]["staticUID"] = "0x%08X" % d(st.integers(0, 2**32 - 1))
    return {"base": base, "types": types, "uid": uid, "opt": d(st.booleans()), "twice": prob(d, 0.3), "default_dir": prob(d, 0.2)}


def strategy(tier):
    return strategy_()


def fields(children, prefix, fqn_of, structs, c):
    out = []
    for i, n in enumerate(children, 1):
        fqn = fqn_of(n)
        if "datatype" in n.attrs:
            dt = ref.resolve_type(n.attrs["datatype"], fqn, structs)
            arr = dt.endswith("[]")
            b = dt[:-2] if arr else dt
            ty, label = MAP.get(b, b), "repeated" if arr else ("optional" if c["opt"] else "")
        else:
            ty, label = fqn.replace(".", ""), "optional" if c["opt"] else ""
        num = i
        if c["uid"] != "none":
            u = n.attrs.get("staticUID")
            num = None if u is None else int(u, 16) >> 3
        out.append((label, ty, n.name, num))
    return out


def bad_numbers(fs):
    nums = [x[3] for x in fs]
    return any(n is None or n < 1 or 19000 <= n < 20000 for n in nums) or len(set(nums)) != len(nums)


def check(c, box):
    tree = ref.build([c["base"]])
    tt = types_tree(c)
    structs = ref.struct_names(tt)
    want = {"out.proto": {}}
    for f, n in tree.walk():
        if n.type == "branch":
            m = f.replace(".", "")
            if m in want["out.proto"]:
                if not c.get("collision"):
                    return Info(False, ["message name collision"])
                continue
            want["out.proto"][m] = fields(n.children.values(), f, lambda k, f=f: f + "." + k.name, structs, c)
    for f, n in tt.walk() if tt else ():
        if n.type == "struct":
            ns, nm = f.rsplit(".", 1)
            p = ns.replace(".", "/") + "/" + ns.rsplit(".", 1)[-1] + ".proto"
            want.setdefault(p, {})[nm] = fields(n.children.values(), f, lambda k, f=f: f + "." + k.name, structs, c)
    bad = any(bad_numbers(fs) for ms in want.values() for fs in ms.values())
    args = emit(box, c) + ["-o", "out.proto"]
    args += ["--add-optional"] if c["opt"] else []
    args += ["--static-uid", "-e", "staticUID"] if c["uid"] != "none" else []
    d = ""
    if tt and not c["default_dir"]:
        args += ["--types-out-dir", "outtypes"]
        d = "outtypes/"
    before = set(box.tree_listing())
    r = box.export("protobuf", *args)
    after = sorted(set(box.tree_listing()) - before)
    labels = ["uid:" + c["uid"], "abort" if bad else "ok"] + (["types"] if tt else [])
    if bad:
        if r.ok:
            raise Violation("field numbers are missing, invalid or not unique, but the export succeeds")
        if after:
            raise Violation("aborted but wrote %s" % after)
        return Info(True, labels)
    if not r.ok:
        raise Violation("a valid model is rejected: %s" % r.tail())
    if c["twice"]:
        box.must("protobuf", *args, why="repeated export")
        after = sorted(set(box.tree_listing()) - before)
    with judging("proto files"):
        files = {}
        for p in after:
            files[p[len(d):] if d and p.startswith(d) else p] = protofmt.parse(box.read(p))
        if set(files) != set(want):
            raise Violation("files %s, expected %s" % (sorted(files), sorted(want)))
        try:
            protofmt.check_all(files)
        except protofmt.ProtoError as e:
            raise Violation(str(e))
        if protofmt.cyclic(files):
            labels.append("cyclic packages")
            if c.get("cycles"):
                raise Violation("the generated files import each other in a cycle")
        for p, ms in want.items():
            f = files[p]
            pk = "" if p == "out.proto" else os.path.dirname(p).replace("/", ".")
            if f.package != pk:
                raise Violation("%s: package %r, expected %r" % (p, f.package, pk))
            if list(f.messages) != list(ms):
                raise Violation("%s: messages %s, expected %s" % (p, list(f.messages)[:8], list(ms)[:8]))
            for m, fs in ms.items():
                if f.messages[m] != fs:
                    raise Violation("message %s: %s, expected %s" % (m, [x for x in f.messages[m] if x not in fs][:3], [x for x in fs if x not in f.messages[m]][:3]))
    return Info(sum(len(ms) for ms in want.values()) > 1, labels)
