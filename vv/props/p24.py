"""Go export: type checks and mirrors the tree."""
import json
import os
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

from .. import ref
from ..binparse import go_env
from ..engine import Info
from ..env import HERE
from ..gen import Cfg, emit, gen_nodes, gen_types, prob, types_tree
from ..runner import Violation, judging

RULE = (
    "Generated models with (nested, multi-level) instances of which some get their own additional or overridden nodes, "
    "arrays, all datatypes, struct types in several namespaces (prefix-sharing names), exported with and without short "
    "names and with different package names; the result is type checked by Go's own type checker and the struct of the "
    "root is compared recursively with the expanded tree. Non-trivial: at least three structs."
)
COUNTS = {"quick": 1200, "thorough": 24000}
CFG = Cfg(max_nodes=10, max_depth=4, instances=0.45, root_instances=0.1, ext=0.0, comments=0.1, text="plain", attrs=False, max_types=5, nested=0.0)
GO = {"boolean": "bool", "float": "float32", "double": "float64"}
STATE = {}


def prepare(tier):
    t = STATE["tmp"] = tempfile.mkdtemp(prefix="vvg.")
    with open(os.path.join(HERE, "drivers", "gocheck.go.txt")) as f, open(os.path.join(t, "main.go"), "w") as g:
        g.write(f.read())
    with open(os.path.join(t, "go.mod"), "w") as g:
        g.write("module gocheck\n\ngo 1.20\n")
    r = subprocess.run(["go", "build", "-o", os.path.join(t, "gocheck"), "."], cwd=t, env=go_env(t), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr)


def cleanup():
    shutil.rmtree(STATE.get("tmp", "/nonexistent"), ignore_errors=True)


@st.composite
def strategy_(draw):
    d = draw
    specific = d(st.booleans())
    types, structs = (None, [])
    if d(st.booleans()):
        types, structs = gen_types(d, CFG)
    base = gen_nodes(d, CFG, structs)
    if prob(d, 0.15):  # names that differ only before they are shortened
        r = next(iter(base))
        w = d(st.sampled_from(["Wx", "Cabin"]))
        for f in (r + "." + w, r + "." + w + ".QRs", r + "." + w + ".Rs", r + ".Q", r + ".Q.Rs"):
            if f not in base:
                base[f] = {"type": "branch", "description": "b"}
        if all(base[f]["type"] == "branch" and not base[f].get("instances") for f in (r, r + "." + w, r + ".Q")):
            base[r + "." + w + ".QRs.One"] = {"type": "sensor", "datatype": "uint8", "description": "l"}
            base[r + "." + w + ".Rs.Three"] = {"type": "sensor", "datatype": "boolean", "description": "l"}
            base[r + ".Q.Rs.Two"] = {"type": "sensor", "datatype": "float", "description": "l"}
        else:
            base = {f: a for f, a in base.items() if not f.startswith((r + "." + w + ".QRs", r + "." + w + ".Rs", r + ".Q"))}
    ov = {}
    if specific:
        tree = ref.build([base])
        inst = [f for f, n in tree.walk() if n.inst]
        leafs = [f for f, n in tree.walk() if n.type != "branch" and "arraysize" not in n.attrs and any(f.startswith(i + ".") for i in inst)]
        for i in range(d(st.integers(1, 3)) if inst else 0):
            how = d(st.sampled_from(["add", "add", "override", "branch", "delete", "order"]))
            if how == "order" and len(inst) > 1:
                # the same members in another order
                for j in range(2):
                    f = d(st.sampled_from(inst))
                    for n in (0, 1)[:: 1 - 2 * j]:
                        ov[f + ".Add%d" % n] = {"type": "sensor", "datatype": "float", "description": "added"}
                continue
            if how in ("override", "delete") and leafs:
                f = d(st.sampled_from(leafs))
                ov[f] = {"type": "sensor", "datatype": d(st.sampled_from(["uint8", "string[]", "double"])), "description": "override"}
                if how == "delete":
                    ov[f]["delete"] = True
            else:
                f = d(st.sampled_from(inst))
                if how == "branch":
                    f += ".Sub%d" % i
                    ov[f] = {"type": "branch", "description": "added branch"}
                ov[f + ".Add%d" % d(st.integers(0, 1))] = {"type": "sensor", "datatype": d(st.sampled_from(["float", "uint8"])), "description": "added"}
    return {"base": base, "types": types, "ov": ov, "short": d(st.booleans()), "package": d(st.sampled_from([None, "model"]))}


def strategy(tier):
    return strategy_()


def gotype(dt):
    arr = dt.endswith("[]")
    b = dt[:-2] if arr else dt
    return arr, GO.get(b, b)


def check(c, box):
    tree = ref.build([c["base"], c["ov"]])
    tt = types_tree(c)
    structs = ref.struct_names(tt)
    tnodes = dict(tt.walk()) if tt else {}
    names = {}
    for f in [f for f, n in tree.walk() if n.type == "branch"] + structs:
        if names.setdefault(f.replace(".", ""), f) != f and not c.get("collision"):
            return Info(False, ["name collision"])
    args = emit(box, c, [c["ov"]] if c["ov"] else []) + ["-o", "out.go"]
    args += [] if c["short"] else ["--no-short-names"]
    args += ["--package", c["package"]] if c["package"] else []
    box.must("go", *args)
    p = subprocess.run([os.path.join(STATE["tmp"], "gocheck"), "out.go"], cwd=box.root, capture_output=True, text=True)
    labels = (["short"] if c["short"] else []) + (["instance specific"] if c["ov"] else []) + (["types"] if tt else [])
    with judging("go file"):
        r = json.loads(p.stdout)
        if r["Err"]:
            raise Violation("the generated file is not valid Go: %s" % r["Err"])
        if r["Package"] != (c["package"] or "vss"):
            raise Violation("package %s" % r["Package"])
        ts = {t["N"]: [(f["N"], f["T"]) for f in t["F"] or []] for t in r["Types"]}

        def same(tname, node, fqn, kids, seen):
            if tname not in ts:
                raise Violation("%s has type %s, which is not a struct of the file" % (fqn, tname))
            fs = ts[tname]
            if [f[0] for f in fs] != [k.name for k in kids]:
                raise Violation("fields of %s (type %s) are %s, expected %s" % (fqn, tname, [f[0] for f in fs], [k.name for k in kids]))
            for (fn, ft), k in zip(fs, kids):
                kf = fqn + "." + fn
                if "datatype" not in k.attrs:
                    if k.inst:
                        inst.setdefault(fqn, set()).add(ft)
                    same(ft, k, kf, list(k.children.values()), seen)
                    continue
                dt = ref.resolve_type(k.attrs["datatype"], kf, structs)
                arr, want = gotype(dt)
                if want in tnodes:
                    if arr != ft.startswith("[]"):
                        raise Violation("%s is %s, expected %s" % (kf, ft, dt))
                    same(ft[2:] if arr else ft, tnodes[want], want, list(tnodes[want].children.values()), seen)
                elif ft != ("[]" if arr else "") + want:
                    raise Violation("%s is %s, expected %s" % (kf, ft, dt))

        inst = {}
        same(tree.name, tree, tree.name, list(tree.children.values()), set())
        plain = not c["ov"] and not any("instantiate" in a for a in c["base"].values())
        # nested instances keep types of their own
        insts = [f + "." for f, n in tree.walk() if n.inst]
        for f, types in inst.items():
            if plain and not any(g.startswith(h) and g != h for g in insts for h in insts) and len(types) > 1:
                raise Violation("the instances below %s have different types: %s" % (f, sorted(types)))
        for s in structs:
            full = s.replace(".", "")
            last = None
            for t in ts:
                if t == full or c["short"] and full.endswith(t):
                    try:
                        same(t, tnodes[s], s, list(tnodes[s].children.values()), set())
                        break
                    except Violation as v:
                        last = v
            else:
                raise last or Violation("no struct for %s in %s" % (s, list(ts)))
            if not c["short"] and full not in ts:
                raise Violation("no struct %s" % full)
        if not c["short"]:
            for f, n in tree.walk():
                if n.type == "branch" and not any(f == i or f.startswith(i + ".") for i, x in tree.walk() if x.inst) and f.replace(".", "") not in ts:
                    raise Violation("no struct %s" % f.replace(".", ""))
    return Info(len(ts) >= 3, labels)
