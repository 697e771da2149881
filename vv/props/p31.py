"""Tree export: the drawing of exactly the model."""
import re

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import DATE, Cfg, emit, models, prob, types_tree
from ..runner import Violation, judging

RULE = (
    "Generated models (instances, structs, extended attributes of any value, deletions, multi-line texts) drawn with 0-4 attributes, "
    "expanded or not, to a file or to the log, and compared line by line with an independent drawing of the tree. "
    "Non-trivial: more than four nodes."
)
COUNTS = {"quick": 2000, "thorough": 36000}
CFG = Cfg(max_nodes=10, ext=0.3, null_ext=True, structs=0.25, comments=0.4)
ATTRS = ["description", "type", "datatype", "unit", "min", "max", "allowed", "default", "comment", "deprecation", "source", "ext1", "quality", "x-note", "nothing", "instances", "arraysize"]


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(CFG))
    ks = [k for k in m["base"] if "." in k]
    if prob(d, 0.2):
        m["base"][d(st.sampled_from(ks))]["delete"] = True
    return {"m": m, "expand": not prob(d, 0.3), "attrs": d(st.lists(st.sampled_from(ATTRS), max_size=4, unique=True)), "file": not prob(d, 0.25), "uuid": prob(d, 0.2)}


def strategy(tier):
    return strategy_()


def draw_tree(root, attrs, structs, ext):
    """-> list of (text, is optional)"""
    out = []

    def node(n, f, first, rest):
        out.append((first + n.name, False))
        a = ref.exported(n.attrs, f, structs, "all", ())
        for k in attrs:
            v = n.attrs.get(k)
            if k in ref.CORE and k != "arraysize":
                v = a.get(k)
            if v is None:
                if k in ("instances", "allowed"):
                    out.append((rest + k + "=[]", True))
                continue
            out.append((rest + k + ("='%s'" if isinstance(v, str) else "=%s") % (v,), False))
        kids = list(n.children.items())
        for i, (k, c) in enumerate(kids):
            last = i == len(kids) - 1
            node(c, f + "." + k, rest + ("\u2514\u2500\u2500 " if last else "\u251c\u2500\u2500 "), rest + ("    " if last else "\u2502   "))

    node(root, root.name, "", "")
    return out


def check(c, box):
    m = c["m"]
    args = emit(box, m) + ["--expand" if c["expand"] else "--no-expand", "--uuid" if c["uuid"] else "--no-uuid"]
    for a in c["attrs"]:
        args += ["--attr", a]
    if c["file"]:
        args += ["-o", "out.txt"]
    before = set(box.tree_listing())
    r = box.must("tree", *args, level="INFO")
    new = set(box.tree_listing()) - before
    if new != ({"out.txt"} if c["file"] else set()):
        raise Violation("files written: %s" % sorted(new))
    tree = ref.build([m["base"]], c["expand"])
    tt = types_tree(m)
    structs = ref.struct_names(tt)
    want = draw_tree(tree, c["attrs"], structs, "all")
    if tt:
        want += draw_tree(tt, c["attrs"], structs, "all")
    with judging("tree drawing"):
        if c["file"]:
            got = box.read("out.txt")
        else:
            # the last message of the log
            start = r.log.rfind(":INFO:%s\n" % tree.name)
            if start < 0:
                raise Violation("no tree in the log: %r" % r.log[-400:])
            got = r.log[start + 6 :].rstrip("\n")
        # a date is drawn with or without quotes
        got = re.sub("=%s$" % DATE, "='%s'" % DATE, got, flags=re.M)
        pos = 0
        lines = []
        for t, opt in want:
            full = got[pos:]
            if full == t or full.startswith(t + "\n"):
                pos += len(t) + 1
                lines.append(t)
            elif not opt:
                raise Violation("expected %r, but the drawing goes on with %r" % (t, full[:120]))
        if c["file"] and pos not in (len(got), len(got) + 1) or not c["file"] and pos < len(got):
            raise Violation("text after the tree: %r" % got[pos:][:200])
    return Info(len(want) > 4, ["types"] * bool(tt) + ["log"] * (not c["file"]) + ["attrs:%d" % len(c["attrs"])])
