"""Franca export: one faithful entry per node, in order."""
import ast
import re

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import Cfg, emit, models, prob
from ..runner import Violation, judging

RULE = (
    "Generated models (texts with quotes, backslashes, line breaks, braces and non-ASCII, enums of every type, boundary numbers, "
    "instances, overlays that delete) exported with and without --uuid and a version; the list of entries is parsed by an "
    "independent parser of Franca literals and compared with the expanded tree. Non-trivial: more than three entries."
)
COUNTS = {"quick": 2000, "thorough": 36000}
CFG = Cfg(max_nodes=10, ext=0.1, units=0.5)
HEADER = re.compile(
    r'\s*(?://[^\n]*\n)*\s*const\s+UTF8String\s+VSS_VERSION\s*=\s*"([^"]*)"\s*struct\s+SignalSpec\s*\{((?:\s*\w+\s+\w+)+)\s*\}\s*const\s+SignalSpec\s*\[\]\s*signal_spec\s*=\s*\['
)
STR = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S)
NUM = re.compile(r"-?[0-9][0-9.eE+-]*")


@st.composite
def strategy_(draw):
    d = draw
    m = d(models(CFG))
    ov = {}
    ks = [k for k in m["base"] if "." in k]
    if ks and prob(d, 0.2):
        k = d(st.sampled_from(ks))
        ov[k] = dict(m["base"][k], delete=True)
    return {"m": m, "ov": ov, "uuid": d(st.booleans()), "version": d(st.sampled_from([None, "4.2", "5.0-dev"]))}


def strategy(tier):
    return strategy_()


def parse(text):
    m = HEADER.match(text)
    if not m:
        raise Violation("malformed head %r" % text[:400])
    version, fields = m.group(1), re.findall(r"(\w+)\s+(\w+)", m.group(2))
    pos, out = m.end(), []

    def ws():
        nonlocal pos
        while pos < len(text) and text[pos].isspace():
            pos += 1

    def expect(s):
        nonlocal pos
        ws()
        if not text.startswith(s, pos):
            raise Violation("%r where %r is expected" % (text[pos : pos + 30], s))
        pos += len(s)

    def lit(quote='"'):
        nonlocal pos
        ws()
        s = STR.match(text, pos)
        n = NUM.match(text, pos)
        if s:
            pos = s.end()
            return re.sub(r"\\(.)", r"\1", s.group(1), flags=re.S)
        if n:
            pos = n.end()
            return ast.literal_eval(n.group())
        raise Violation("malformed value %r" % text[pos : pos + 40])

    ws()
    while pos < len(text) and text[pos] == "{":
        pos += 1
        e = {}
        while True:
            ws()
            k = re.compile(r"\w+").match(text, pos)
            if not k:
                raise Violation("malformed entry %r" % text[pos : pos + 40])
            pos = k.end()
            expect(":")
            ws()
            if text[pos] == "[":
                # a Python style list: find the end by parsing
                for end in range(pos + 1, len(text)):
                    if text[end] == "]":
                        try:
                            v = ast.literal_eval(text[pos : end + 1])
                            break
                        except (SyntaxError, ValueError):
                            pass
                else:
                    raise Violation("malformed list %r" % text[pos : pos + 40])
                pos = end + 1
            else:
                v = lit()
            if k.group() in e:
                raise Violation("%s twice in %s" % (k.group(), e))
            e[k.group()] = v
            ws()
            if text[pos : pos + 1] == ",":
                pos += 1
                continue
            break
        expect("}")
        out.append(e)
        ws()
        if text[pos : pos + 1] != ",":
            break
        pos += 1
        ws()
    expect("]")
    ws()
    if pos != len(text):
        raise Violation("text after the end: %r" % text[pos : pos + 40])
    return version, fields, out


def check(c, box):
    m = c["m"]
    args = emit(box, m, [c["ov"]] if c["ov"] else []) + ["-o", "out.fidl"] + (["--uuid"] if c["uuid"] else [])
    args += ["--franca-vss-version", c["version"]] if c["version"] else []
    box.must("franca", *args)
    tree = ref.build([m["base"], c["ov"]])
    with judging("franca file"):
        version, fields, got = parse(box.read("out.fidl"))
        if c["version"] and version != c["version"]:
            raise Violation("version is %r" % version)
        if [f for _, f in fields] != ["id", "name", "type", "description", "datatype", "unit", "min", "max"]:
            raise Violation("fields %s" % fields)
        want = []
        for f, n in list(tree.walk())[1:]:
            a = ref.exported(n.attrs, f)
            e = {"name": f, **{k: a[k] for k in ("type", "description", "datatype", "unit", "min", "max", "allowed") if k in a}}
            if c["uuid"]:
                e["uuid"] = ref.uuid_of(f)
            want.append(e)
        if [e.get("name") for e in got] != [e["name"] for e in want]:
            raise Violation("entries %s, expected %s" % ([e.get("name") for e in got], [e["name"] for e in want]))
        for g, w in zip(got, want):
            if not ref.strict_eq(g, w):
                raise Violation("entry %s, expected %s" % (g, w))
    return Info(len(want) > 3, (["uuid"] if c["uuid"] else []) + (["deleted"] if c["ov"] else []))
