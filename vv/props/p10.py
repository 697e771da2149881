"""User defined struct types resolve and merge as documented."""
import copy
import os

from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..exporters import ALL, NO_TYPES, same_as_flat
from ..gen import UNITS, Cfg, dump, emit_units, gen_nodes, gen_types, leaf_attrs, prob
from ..ref import PRIMITIVES
from ..runner import Violation, judging

RULE = (
    "Generated struct type trees (nested namespaces, structs using structs and arrays of structs, full and shortened "
    "names, same short name in several namespaces) split over 1-3 type files that repeat, extend and redefine each "
    "other, possibly through includes; signals using them by full name, array or (same root) shortened name; some "
    "references unknown, ambiguous prefixes (T.P / T.PosExt), or types not given. Exported as JSON, YAML or CSV with "
    "and without a separate types output, one case in four also by another exporter, compared with all types in one file. Non-trivial: a struct is referenced by a signal or another struct."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(max_nodes=6, max_depth=3, instances=0.2, ext=0.0, text="plain", comments=0.2, max_types=7, nested=0.25)


def short_ok(short, f, structs, want, unambiguous):
    hits = [t for t in structs if t.rsplit(".", 1)[1] == short and f.startswith(t.rsplit(".", 1)[0] + ".") and not f.startswith(t + ".")]
    if unambiguous and len(hits) != 1:
        return False
    try:
        return ref.resolve_type(short, f, structs) == want
    except ref.Invalid:
        return False


@st.composite
def strategy_(draw):
    d = draw
    same_root = prob(d, 0.3)
    types, structs = gen_types(d, CFG, root="Vehicle" if same_root else None)
    nfiles = d(st.sampled_from([1, 1, 2, 2, 3]))
    # replace references by short names where they are usable
    for f, a in types.items():
        if a["type"] != "property":
            continue
        dt = a["datatype"]
        arr = "[]" if dt.endswith("[]") else ""
        b = dt[:-2] if arr else dt
        try:
            full = ref.resolve_type(b, f, structs)
        except ref.Invalid:
            continue
        a["datatype"] = full + arr
        if full in structs:
            s = full.rsplit(".", 1)[1]
            if prob(d, 0.7) and short_ok(s, f, structs, full, nfiles > 1):
                a["datatype"] = s + arr
    root = next(iter(types))
    base = gen_nodes(d, CFG, structs, root=root if same_root else d(st.sampled_from(["Vehicle", "Car", "V"])))
    # make sure that structs are used
    bs = [k for k, a in base.items() if a["type"] == "branch"]
    for i in range(d(st.integers(1, 2))):
        s = d(st.sampled_from(structs))
        f = d(st.sampled_from(bs)) + ".Typed%d" % i
        sh = s.rsplit(".", 1)[1]
        name = s
        if prob(d, 0.6) and short_ok(sh, f, structs, s, False) and not any(a.get("instances") for a in base.values()):
            name = sh
        base[f] = {"type": d(st.sampled_from(["sensor", "actuator", "attribute"])), "datatype": name + d(st.sampled_from(["", "[]"])), "description": "typed"}
        if base[f]["datatype"].endswith("[]") and prob(d, 0.3):
            base[f]["arraysize"] = 3
    # split over files
    files = [dict() for _ in range(nfiles)]
    for f, a in types.items():
        if a["type"] == "branch":
            for i in range(nfiles):
                if f == root or i == 0 or True:
                    files[i][f] = copy.deepcopy(a)
                    if i and prob(d, 0.3):
                        files[i][f]["description"] = "root again %d" % i
        elif a["type"] == "struct":
            i = d(st.integers(0, nfiles - 1))
            up = f.rsplit(".", 1)[0]
            if up in structs:
                i = next(i for i in range(nfiles) if up in files[i])
            files[i][f] = copy.deepcopy(a)
        else:
            s = f.rsplit(".", 1)[0]
            i = next(i for i in range(nfiles) if s in files[i])
            files[i][f] = copy.deepcopy(a)
    if nfiles > 1:
        for _ in range(d(st.integers(0, 2))):
            # redefine a struct of an earlier file in a later one
            i = d(st.integers(0, nfiles - 2))
            own = [k for k, a in files[i].items() if a["type"] == "struct" and k.rsplit(".", 1)[0] not in structs]
            if not own:
                continue
            s = d(st.sampled_from(own))
            j = d(st.integers(i + 1, nfiles - 1))
            files[j].setdefault(s, {"type": "struct", "description": "again %d" % j})
            op = d(st.sampled_from(["struct", "add", "change"]))
            props = [k for k in files[i] if k.rsplit(".", 1)[0] == s and files[i][k]["type"] == "property"]
            if op == "add":
                files[j][s + ".Added%d" % j] = {"type": "property", "datatype": d(st.sampled_from(PRIMITIVES)), "description": "added"}
            elif op == "change" and props:
                p = d(st.sampled_from(props))
                files[j][p] = {"type": "property", "datatype": files[i][p]["datatype"], "description": "changed %d" % j}
    spoil = None
    if prob(d, 0.2):
        spoil = d(st.sampled_from(["signal", "property", "signal_short", "none_given", "prefix", "own"]))
        s = d(st.sampled_from(structs))
        if spoil == "signal":
            base[d(st.sampled_from(bs)) + ".BadRef"] = {"type": "sensor", "datatype": d(st.sampled_from([s + "x", s[:-1], root, s.rsplit(".", 1)[0], "Nope", s + "[][]", s + ".x"])), "description": "b"}
        elif spoil == "signal_short":
            base[d(st.sampled_from(bs)) + ".BadRef"] = {"type": "sensor", "datatype": s.rsplit(".", 1)[1] + d(st.sampled_from(["", "[]"])), "description": "b"}
        elif spoil == "property":
            i = next(i for i in range(nfiles) if s in files[i])
            files[i][s + ".BadRef"] = {"type": "property", "datatype": d(st.sampled_from(["Nope", s + "x", root])), "description": "b"}
        elif spoil == "prefix":
            # namespaces that are only string prefixes of each other
            files[0][root + ".Na"] = {"type": "branch", "description": "b"}
            files[0][root + ".Na.Inner"] = {"type": "struct", "description": "b"}
            files[0][root + ".Na.Inner.v"] = {"type": "property", "datatype": "uint8", "description": "b"}
            files[0][root + ".NaExt"] = {"type": "struct", "description": "b"}
            files[0][root + ".NaExt.v"] = {"type": "property", "datatype": d(st.sampled_from(["Inner", "Inner[]", "Na.Inner", root + ".Na.Inner"])), "description": "b"}
        elif spoil == "own":
            i = next(i for i in range(nfiles) if s in files[i])
            files[i][s + ".Own"] = {"type": "property", "datatype": s.rsplit(".", 1)[1], "description": "b"}
    return {
        "other": d(st.sampled_from([e for e in ALL if e not in NO_TYPES])) if prob(d, 0.25) else None,
        "base": base, "files": files, "spoil": spoil, "include": d(st.sampled_from([None] * 5 + ["sub", "idir", "next"])),
        "exporter": d(st.sampled_from(["json", "json", "yaml", "csv"])), "sep": d(st.booleans()),
    }


def strategy(tier):
    return strategy_()


def check(c, box):
    emit_units(box)
    box.write("root.vspec", dump(c["base"]))
    args = ["-s", "root.vspec"]
    given = [] if c["spoil"] == "none_given" else c["files"]
    for i, f in enumerate(given):
        name = "types%d.vspec" % i
        inc = c["include"]
        if inc in ("sub", True):
            box.write("inc/tt%d.vspec" % i, dump(f))
            box.write(name, "#include inc/tt%d.vspec\n" % i)
        elif inc:  # found by the include directories, or next to the types file
            name = "td%d/types.vspec" % i
            box.write("%s/tt.vspec" % ("idir%d" % i if inc == "idir" else os.path.dirname(name)), dump(f))
            box.write(name, "#include tt.vspec\n" if inc == "next" else "#include ../idir%d/tt.vspec\n#include tu%d.vspec\n" % (i, i))
            if inc == "idir":
                box.write("some/idir/tu%d.vspec" % i, dump({k: {"description": a["description"]} for k, a in f.items()}))
        else:
            box.write(name, dump(f))
        args += ["-t", name]
    if c["include"] == "idir":
        args += ["-I", "some/idir"] if given else []
    ex = c["exporter"]
    args += ["-o", "out"] + (["--types-output", "tout"] if c["sep"] and given else [])
    r = box.export(ex, *args)
    probs = []
    structs, tt = [], None
    try:
        if given:
            tt = ref.to_tree(ref.merge_layers(given))
            structs = ref.struct_names(tt)
            probs += valid.tree_problems(tt, structs, UNITS)
        tree = ref.build([c["base"]])
        probs += valid.tree_problems(tree, structs, UNITS)
    except ref.Invalid as e:
        probs.append(str(e))
    if probs:
        if r.ok:
            raise Violation("accepted despite: %s" % probs[:3])
        if box.exists("out") or box.exists("tout"):
            raise Violation("output written although rejected: %s" % probs[:3])
        return Info(True, ["rejected", str(c["spoil"])])
    if not r.ok:
        raise Violation("valid types rejected: %s" % r.tail())
    want, twant = ref.flat(tree, structs), (ref.flat(tt, structs) if tt else None)
    with judging(ex):
        got, tgot = read_trees(box, ex, tt is not None, c["sep"])
        if ex == "csv":
            want = {k: v.get("datatype", "") for k, v in want.items()}
            twant = {k: v.get("datatype", "") for k, v in twant.items()} if twant else None
            msg = None
            if want != got or twant != tgot:
                msg = "datatypes %s / %s, expected %s / %s" % (got, tgot, want, twant)
        else:
            msg = ref.diff_flat(want, got) or (twant and ref.diff_flat(twant, tgot))
        if msg:
            raise Violation("%s: %s" % (ex, msg))
    also = []
    if c.get("other") and given:
        if same_as_flat(box, c["other"], args[: args.index("-o")], c["base"], ref.merge_layers(given)):
            also = ["also " + c["other"]]
    allrefs = [a["datatype"] for f in given for a in f.values() if "datatype" in a] + [a["datatype"] for a in c["base"].values() if "datatype" in a]
    hard = [x for x in allrefs if (x[:-2] if x.endswith("[]") else x) not in PRIMITIVES]
    allstructs = [f for x in given for f, a in x.items() if a["type"] == "struct"]
    labels = ["nested" if any(f.rsplit(".", 1)[0] in allstructs for f in allstructs) else "flat", ex, "files:%d" % len(given), "short" if any("." not in x for x in hard) else "full"] + also
    return Info(bool(hard), labels)


def read_trees(box, ex, has_types, sep):
    """-> (signals, types) as flat dicts; None for absent types."""
    if ex == "json":
        got = box.json("out")
        t = None
        if has_types:
            t = box.json("tout") if sep else got.pop("ComplexDataTypes")
            t = ref.unnest(t)
        return ref.unnest(got), t
    if ex == "yaml":
        got = box.yaml("out")
        t = None
        if has_types:
            t = box.yaml("tout") if sep else got.pop("ComplexDataTypes")
        return got, t
    import csv
    import io

    def rows(text):
        rs = list(csv.reader(io.StringIO(text, newline="")))
        h = rs[0]
        return h[0], [dict(zip(h, x)) for x in rs[1:]]

    head, rs = rows(box.read("out"))
    got = [(x[head], x["DataType"]) for x in rs if x["Type"] not in ("struct", "property")]
    t = None
    if has_types:
        if sep:
            th, trs = rows(box.read("tout"))
            t = [(x[th], x["DataType"]) for x in trs]
        else:
            n = len(got)
            # both trees in one file: signals first, type tree after them
            allr = [(x[head], x["DataType"]) for x in rs]
            k = None
            for i, x in enumerate(rs):
                if i and x["Type"] == "branch" and "." not in x[head]:
                    k = i
            got, t = allr[:k], allr[k:]
        t = dict(t)
    return dict(got), t
