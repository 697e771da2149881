"""Malformed trees are rejected, well-formed ones are not."""
from hypothesis import strategies as st

from .. import bad, ref
from ..engine import Info
from ..gen import Cfg, emit, models
from ..runner import Violation, judging

RULE = (
    "A generated valid model (optionally with a struct type tree) plus one structural defect out of 25 kinds placed at "
    "a random node: missing or foreign parent, several or no roots, children below signals, properties outside structs, "
    "missing or unknown type, missing description, core attributes on nodes that do not have them, non-mapping nodes, "
    "orphan or root-level types. Every case also exports the unchanged model, which must be accepted. Non-trivial: all "
    "cases whose defect could be placed."
)
COUNTS = {"quick": 1800, "thorough": 30000}
CFG = Cfg(max_nodes=7, instances=0.25, structs=0.5, text="plain", ext=0.1)
KINDS = bad.STRUCTURAL + bad.TYPES + ["missing_datatype"]


@st.composite
def strategy_(draw):
    d = draw
    kind = d(st.sampled_from(KINDS))
    m = d(models(Cfg(**{**CFG.__dict__, "structs": 1.0})) if kind.startswith("types_") else models(CFG))
    c = bad.make(d, kind, m["base"], m["types"])
    if c is None:
        c = bad.make(d, d(st.sampled_from(["no_type", "no_description", "core_on_branch"])), m["base"], m["types"])
    return {"m": m, "bad": c, "expand": d(st.booleans())}


def strategy(tier):
    return strategy_()


def check(c, box):
    more = [] if c["expand"] else ["--no-expand"]
    args = emit(box, c["m"]) + more
    r = box.export("json", *args, "-o", "good.json")
    if not r.ok:
        raise Violation("a well-formed model was rejected: %s" % r.tail())
    args = bad.emit_bad(box, c["bad"]) + more
    r = box.export("json", *args, "-o", "bad.json")
    if r.ok:
        raise Violation("a malformed model (%s) was accepted" % c["bad"]["kind"])
    if box.exists("bad.json"):
        raise Violation("output written for a malformed model (%s)" % c["bad"]["kind"])
    return Info(True, [c["bad"]["kind"]])
