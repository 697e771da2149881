"""Include files compose to the model of one flat file."""
import os

from hypothesis import strategies as st

from .. import ref, valid
from ..engine import Info
from ..exporters import ALL, same_as_flat
from ..gen import UNITS, Cfg, dump, emit_units, gen_nodes, leaf_attrs, prob, text
from ..runner import Violation, judging

RULE = (
    "A root file and 1-4 generated fragments connected by #include lines (with and without prefix, nested, the same "
    "fragment included twice, targets in the root directory, -I directories or next to the including file, decoy files "
    "of the same name in lower-precedence directories, fragments redefining nodes, include lines at any position), also "
    "through overlays; for one case in four another of the 14 exporters has to make the same of it as of one flat file. Non-trivial: at least one include was resolved and the model has 4 or more nodes."
)
COUNTS = {"quick": 2400, "thorough": 40000}
CFG = Cfg(max_nodes=3, max_depth=2, instances=0.0, root_instances=0.0, ext=0.1, comments=0.2, text="rich", instantiate=0)
DIRS = ["", "sub/", "sub/deep/", "other/"]
IDIRS = ["inc1", "inc2"]


@st.composite
def strategy_(draw):
    d = draw
    root = d(st.sampled_from(["Vehicle", "A"]))
    files = {}
    rootdir = d(st.sampled_from(["", "spec/"]))
    rootfile = rootdir + "root.vspec"
    base = gen_nodes(d, CFG, root=root)
    idirs = d(st.sampled_from([[], ["inc1"], ["inc1", "inc2"], ["inc2", "inc1"], ["inc1", "inc1"], ["inc1", "in/inc1", "inc2"], ["in/inc1", "in2/inc1"], ["inc1", "inc2", "inc1"]]))
    files[rootfile] = {"entries": base, "inc": []}
    # contexts: (file, {relative branch names}) that later fragments can be included from
    order = [rootfile]
    nfrag = d(st.integers(1, 4))
    for i in range(nfrag):
        host = order[d(st.integers(0, len(order) - 1))]
        hb = [k for k, a in files[host]["entries"].items() if a.get("type") == "branch"]
        if not hb:
            host, hb = rootfile, [k for k, a in base.items() if a["type"] == "branch"]
        at = hb[d(st.integers(0, len(hb) - 1))]
        # also names equal to, or beginning with, the names above
        sub = d(st.sampled_from(["F%d" % i, "Part", "Part%d" % i, at.split(".")[0], at.split(".")[-1], at.split(".")[-1] + "X", root + "x"]))
        frag = gen_nodes(d, CFG, root=sub)
        use_prefix = d(st.booleans())
        if use_prefix:
            entries, prefix = frag, at
        else:
            entries, prefix = {at + "." + k: v for k, v in frag.items()}, None
        if prob(d, 0.3):
            # redefine something the including file knows
            cands = [k for k in files[host]["entries"] if (k.startswith(at + ".") if use_prefix else True)]
            if cands:
                k = d(st.sampled_from(cands))
                rel = k[len(at) + 1:] if use_prefix else k
                patch = {"description": "redefined %d" % i}
                if prob(d, 0.5):
                    patch["comment"] = "from fragment %d" % i
                entries = {**entries, rel: {**entries.get(rel, {}), **patch}}
        # where the file lives and how it is named
        place = d(st.sampled_from(["root", "rel"] + (["idir"] if idirs else [])))
        sdir = d(st.sampled_from(DIRS))
        target = sdir + "f%d.vspec" % i
        hostdir = os.path.dirname(host)
        cand = [rootdir] + [x + "/" for x in idirs] + [hostdir + "/" if hostdir else ""]
        if place == "root":
            path = rootdir + target
        elif place == "rel":
            path = cand[-1] + target
        else:
            path = d(st.sampled_from(idirs)) + "/" + target
        if path in files:
            path, target = rootdir + "g%d.vspec" % i, "g%d.vspec" % i
        files[path] = {"entries": entries, "inc": []}
        if prob(d, 0.4):
            # decoys in other lookup directories: only the first in lookup order counts
            elsewhere = sorted({os.path.dirname(x) for x in order})
            for cdir in cand + [x + "/" if x else "" for x in elsewhere]:
                dp = cdir + target
                if dp not in files and prob(d, 0.6):
                    files[dp] = {"entries": {k: {**v, "description": "decoy " + (cdir or ".")} for k, v in entries.items()}, "inc": []}
        style = d(st.sampled_from(["#include %s %s", "  #include %s %s", "#include  %s   %s", "#include %s %s  ", "#include\t%s\t%s"]))
        pos = d(st.sampled_from([0, 999, 1]))
        files[host]["inc"].append({"t": target, "p": prefix, "style": style, "pos": pos})
        if prob(d, 0.35) and use_prefix:
            # the same file once more below another branch
            at2 = hb[d(st.integers(0, len(hb) - 1))]
            if at2 != at:
                files[host]["inc"].append({"t": target, "p": at2, "style": "#include %s %s", "pos": 999})
        order.append(path)
    for f in files.values():
        for k in f["entries"]:
            if prob(d, 0.04):
                f["entries"][k] = {**f["entries"][k], "description": d(st.sampled_from(sorted(TEXTS)))}
    bad = d(st.sampled_from([None] * 14 + ["missing", "malformed", "elsewhere"]))
    if bad == "elsewhere":
        # a file that only exists where it is not looked up: next to another file of the model
        host = order[-1]
        look = {rootdir.rstrip("/"), *idirs, os.path.dirname(host)}
        dirs = [x for x in {os.path.dirname(f): 0 for f in order} if x not in look] or ["nowhere"]
        files[dirs[0] + "/" * bool(dirs[0]) + "only.vspec"] = {"entries": {"Q": {"type": "branch", "description": "d"}}, "inc": []}
        files[host]["inc"].append({"t": "only.vspec", "p": root, "style": "#include %s %s", "pos": 999})
        bad = None
    overlay = None
    later = {}
    if prob(d, 0.5):
        # later definitions for nodes of the composed model
        try:
            known = list(dict.fromkeys(k for ly in compose(files, rootfile, idirs, os.path.dirname(rootfile)) for k in ly))
        except ref.Invalid:
            known = []
        for k in d(st.lists(st.sampled_from(known), max_size=3, unique=True)) if known else ():
            later[k] = d(st.sampled_from([{"description": "later"}, {"comment": "later"}, {"deprecation": "later", "description": ""}]))
    if later and d(st.booleans()):
        files[rootdir + "zlater.vspec"] = {"entries": later, "inc": []}
        files[rootfile]["inc"].append({"t": "zlater.vspec", "p": None, "style": "#include %s %s", "pos": 999})
        later = {}
    if later or prob(d, 0.25):
        ov = {k: v for k, v in gen_nodes(d, CFG, root="Ov").items()}
        files["ovdir/ovfrag.vspec"] = {"entries": ov, "inc": []}
        for cdir in [rootdir, *[x + "/" for x in idirs]]:
            # the directory of the overlay, not that of the root file, is looked at first
            if prob(d, 0.3):
                files[cdir + "ovfrag.vspec"] = {"entries": {k: {**v, "description": "decoy " + cdir} for k, v in ov.items()}, "inc": []}
        files["ovdir/overlay.vspec"] = {"entries": {root: {"description": "overlay root"}, **later}, "inc": [{"t": "ovfrag.vspec", "p": root, "style": "#include %s %s", "pos": d(st.sampled_from([0, 999]))}]}
        overlay = "ovdir/overlay.vspec"
    return {"files": files, "root": rootfile, "idirs": idirs, "bad": bad, "overlay": overlay, "yaml": prob(d, 0.2), "other": d(st.sampled_from(ALL)) if prob(d, 0.25) else None}


def strategy(tier):
    return strategy_()


# texts with a line that looks like an include statement but is none
TEXTS = {
    "TXT0": '"first\n\n  #include nowhere.vspec X"',
    "TXT1": "'#include nowhere.vspec\n    #include nowhere.vspec'",
    "TXT2": "|\n    first\n    #include nowhere.vspec X\n",
    "TXT3": ">-\n    #include nowhere.vspec X\n\n    last",
    "TXT4": '"a\\\n    #include nowhere.vspec\\n"',
}


def render(f):
    """Include lines are comment lines: they may stand anywhere, order counts."""
    blocks = [dump({k: v}) for k, v in f["entries"].items()]
    for i, b in enumerate(blocks):
        for name, t in TEXTS.items():
            blocks[i] = b = b.replace("description: " + name + "\n", "description: " + t + "\n")
    lines = [(i["pos"], i["style"] % (i["t"], i["p"] or "")) for i in f["inc"]]
    # keep the order of the include lines, spread over the block gaps
    out, last = [], 0
    gaps = {}
    for pos, line in lines:
        last = max(last, min(pos, len(blocks)))
        gaps.setdefault(last, []).append(line)
    for n in range(len(blocks) + 1):
        out += [x + "\n" for x in gaps.get(n, [])]
        if n < len(blocks):
            out.append(blocks[n])
    return "".join(out)


def compose(files, path, idirs, specdir, prefix=None, depth=0):
    """Reference: own entries first, then the includes in order, depth first."""
    if depth > 30:
        raise ref.Invalid("include recursion")
    f = files[path]
    import yaml

    layers = [{(prefix + "." + k if prefix else k): v for k, v in f["entries"].items()}]
    for k, v in layers[0].items():
        if v.get("description") in TEXTS:
            layers[0][k] = {**v, "description": yaml.safe_load("  description: " + TEXTS[v["description"]])["description"]}
    here = os.path.dirname(path)
    for i in f["inc"]:
        cands = [specdir] + list(idirs) + [here]
        for c in cands:
            p = os.path.normpath(os.path.join(c, i["t"])) if c else os.path.normpath(i["t"])
            if p in files:
                break
        else:
            raise ref.Invalid("include not found")
        np = ".".join(x for x in (prefix, i["p"]) if x) or None
        layers += compose(files, p, idirs, specdir, np, depth + 1)
    return layers


def check(c, box):
    files = c["files"]
    # a decoy may shadow an included file that itself includes others: still modelled
    specdir = os.path.dirname(c["root"])
    texts = {p: render(f) for p, f in files.items()}
    bad = c["bad"]
    if bad == "missing":
        texts[c["root"]] += "#include nowhere/none.vspec\n"
    elif bad == "malformed":
        texts[c["root"]] += "#include\n"
    for p, t in texts.items():
        box.write(p, t)
    for i in set(c["idirs"]):
        import os as _os

        _os.makedirs(box.path(i), exist_ok=True)
    emit_units(box, d=specdir + "/" if specdir else "")
    args = ["-s", c["root"], "--extend-all-attributes", "-o", "out.json"]
    for i in c["idirs"]:
        args += ["-I", i]
    invalid = bad is not None
    if c["overlay"]:
        args += ["-l", c["overlay"]]
    try:
        layers = compose(files, c["root"], c["idirs"], specdir)
        if c["overlay"]:
            layers += compose(files, c["overlay"], c["idirs"], os.path.dirname(c["overlay"]))
        tree = ref.to_tree(ref.merge_layers(layers))
        probs = valid.tree_problems(tree, (), UNITS)
    except ref.Invalid as e:
        probs = [str(e)]
    exporter = "yaml" if c["yaml"] else "json"
    r = box.export(exporter, *args)
    labels = ["files:%d" % min(len(files), 6), exporter]
    if invalid or probs:
        if r.ok:
            raise Violation("accepted although %s" % (bad or probs[:2]))
        if box.exists("out.json"):
            raise Violation("output written although %s" % (bad or probs[:2]))
        return Info(bool(bad) or "not found" in str(probs), labels + ["rejected:%s" % (bad or "composition")])
    if not r.ok:
        raise Violation("the composed model is valid but was rejected: %s" % r.tail())
    with judging("export"):
        want = ref.flat(tree)
        got = box.yaml("out.json") if c["yaml"] else ref.unnest(box.json("out.json"))
        msg = ref.diff_flat(want, got)
        if msg:
            raise Violation("include composition differs from the flat model: " + msg)
    if c.get("other"):
        common = [a for i, a in enumerate(args) if a not in ("--extend-all-attributes", "-o", "out.json")]
        if same_as_flat(box, c["other"], common, ref.merge_layers(layers)):
            labels.append("also " + c["other"])
    nested = any(f["inc"] for p, f in files.items() if p != c["root"] and p != c["overlay"])
    decoy = any("decoy" in str(a.get("description")) for f in files.values() for a in f["entries"].values())
    return Info(len(want) >= 4, labels + (["nested"] if nested else []) + (["decoy"] if decoy else []) + (["overlay"] if c["overlay"] else []))
