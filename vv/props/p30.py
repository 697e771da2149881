"""SAMM export: aspect models that parse and mirror the unexpanded tree."""
import json
import os

from hypothesis import strategies as st

from .. import ref
from ..engine import Info
from ..gen import INST_LISTS, Cfg, emit, gen_nodes, prob, text
from ..runner import Violation, judging

RULE = (
    "Generated models with distinct or repeated names (instances on one or two levels, arrays, enums of every kind, limits, known and "
    "unknown units, deprecated nodes, texts with quotes, backslashes and line breaks, defaults incl. 0/false/empty, a version branch) "
    "exported as one or as split aspect models of any depth, whole or for a list of selected paths. All files are read by an RDF "
    "parser and walked from the aspects to the leaves alongside the unexpanded tree. Non-trivial: at least three exported leaves."
)
COUNTS = {"quick": 900, "thorough": 20000}
UNIT_URI = {
    "km": "kilometre", "percent": "percent", "s": "secondUnitOfTime", "celsius": "degreeCelsius", "m/s": "metrePerSecond", "V": "volt",
    "mbar": "millibar", "rpm": "revolutionsPerMinute", "N.m": "newtonMetre", "km/h": "kilometrePerHour", "cm^3": "cubicCentimetre",
}
UNITS = {k: {"definition": "d", "unit": None, "quantity": "q", "allowed-datatypes": ["numeric"]} for k in list(UNIT_URI) + ["furlong"]}
UNITS["iso8601"] = {"definition": "d", "unit": None, "quantity": "q", "allowed-datatypes": ["string"]}
CFG = Cfg(max_nodes=12, max_depth=4, ext=0.1, comments=0.0, units=0.5, unit_table=UNITS, instances=0.25, bulk=0.0)
WORDS = (
    "Alpha Bravo Charlie Delta Echo Foxtrot Golf Hotel India Juliett Kilo Lima Mike November Oscar Papa Quebec Romeo Sierra Tango Uniform "
    "Victor Whiskey Xray Yankee Zulu DoorCount Door Speed SpeedLimit Axle2 Lane1Width"
).split()
DATES = ["0000-01-01T00:00Z", "0001-01-01T00:00:00.00000+00:00", "2000-01-01T14:23:00", "2023-11-27T16:26:05.671Z"]
XSD = "http://www.w3.org/2001/XMLSchema#"
SAMM = "urn:samm:org.eclipse.esmf.samm:meta-model:2.1.0#"
SAMMC = "urn:samm:org.eclipse.esmf.samm:characteristic:2.1.0#"
UNIT = "urn:samm:org.eclipse.esmf.samm:unit:2.1.0#"
DT = {"uint8": "unsignedByte", "int8": "byte", "uint16": "unsignedShort", "int16": "short", "uint32": "unsignedInt", "int32": "int",
      "uint64": "unsignedLong", "int64": "long", "boolean": "boolean", "float": "float", "double": "double", "string": "string"}


@st.composite
def strategy_(draw):
    d = draw
    raw = gen_nodes(d, CFG, root="V")
    uniq = d(st.booleans())
    words = d(st.permutations(WORDS))
    byname, n = {}, [0]

    def word(name, f):
        key = f if uniq else name
        if key not in byname:
            w = words[n[0] % len(words)] + ("Ext" if n[0] >= len(words) else "")
            n[0] += 1
            if raw[f].get("datatype") == "boolean" and prob(d, 0.6):
                w = "Is" + w
            byname[key] = w
        return byname[key]

    ren, base = {}, {}
    root = d(st.sampled_from(["Vehicle", "Vehicle", "Machine"]))
    for f in raw:
        p, _, nm = f.rpartition(".")
        ren[f] = ren[p] + "." + word(nm, f) if p else root
    for f, a in raw.items():
        a = dict(a)
        if ren[f] in base:
            continue
        if prob(d, 0.1):
            a["deprecation"] = "v5 gone"
        if prob(d, 0.3):
            a["comment"] = d(text(CFG))
        if a.get("unit") == "iso8601" and not a["datatype"].endswith("[]") and not a.get("allowed") and a["type"] != "branch" and prob(d, 0.7):
            a["default"] = d(st.sampled_from(DATES))
            a.pop("pattern", None)
        if a.get("instances"):  # names that are the same in camel case
            a["instances"] = json.loads(json.dumps(a["instances"]).replace("]X", "]Side").replace("N1", "Nose").replace("N2", "Neck"))
        base[ren[f]] = a
    if prob(d, 0.3):
        v = root + ".VersionVSS"
        base[v] = {"type": "branch", "description": "version"}
        for k in ("Major", "Minor", "Patch"):
            base[v + "." + k] = {"type": "attribute", "datatype": "uint32", "default": d(st.integers(0, 6)), "description": k}
    names = [f.rsplit(".", 1)[-1] for f in base]
    # names that repeat and extend the one of their parent are ambiguous (known finding)
    amb = any(f.count(".") and names.count(f.rsplit(".", 1)[1]) > 1 and f.rsplit(".", 1)[1].startswith(f.split(".")[-2]) for f in base)
    sel = None
    if prob(d, 0.3):
        sel = d(st.lists(st.sampled_from(sorted(base)), min_size=1, max_size=3, unique=True))
        if prob(d, 0.2):
            sel.insert(d(st.integers(0, len(sel))), "")
    return {"base": base, "split": d(st.sampled_from([None, True, False])), "depth": d(st.sampled_from([None, None, 1, 2, 3])), "sel": sel,
            "tns": d(st.sampled_from([None, "org.acme"])), "ambiguous": amb}


def strategy(tier):
    return strategy_()


def lc(s):
    # abbreviations are written like words
    return "versionvss" if s == "VersionVSS" else s[0].lower() + s[1:]


def check(c, box):
    from rdflib import RDF, Graph, Literal, URIRef
    from rdflib.collection import Collection

    base = c["base"]
    if c.get("ambiguous"):
        return Info(False, ["ambiguous names"])
    args = emit(box, {"base": base, "units": UNITS, "quantities": {"q": {"definition": "d"}}}) + ["-tf", "out"]
    if c["split"] is not None:
        args.append("--split" if c["split"] else "--no-split")
    if c["depth"]:
        args += ["-spld", str(c["depth"])]
    if c["tns"]:
        args += ["-tns", c["tns"]]
    if c["sel"]:
        box.write("sel.txt", "".join("%s%s%s\n" % ("\t" * (i % 2), s, " " * (i == 2)) for i, s in enumerate(c["sel"])))
        args += ["-sigf", "sel.txt"]
    box.must("samm", *args)
    root = ref.to_tree(base)

    # the selected part
    selected = [s for s in c["sel"] or [] if s]

    def keep(n, f):
        if not selected:
            return True
        hit = any(f == s or f.startswith(s + ".") for s in selected)
        if n.type != "branch":
            return hit
        for k, ch in list(n.children.items()):
            if not keep(ch, f + "." + k):
                del n.children[k]
        return bool(n.children)

    alive = keep(root, root.name)
    ver = [1, 0, 0]
    full = ref.to_tree(base)
    if "VersionVSS" in full.children:
        for i, k in enumerate(("Major", "Minor", "Patch")):
            ver[i] = full.children["VersionVSS"].children[k].attrs["default"]
    split = c["split"] is not False
    depth = c["depth"] or 1

    def gone(n):
        return bool(n.attrs.get("deprecation"))

    def skipped(n, dpt):
        """Deprecated, or an aspect of its own with nothing to tell."""
        return gone(n) or n.type == "branch" and (dpt == 0 or split and dpt <= depth) and all(gone(x) for x in n.children.values())

    nothing = not alive or skipped(root, 0)
    nleaf = 0
    labels = ["split" if split else "single"] + ["selected"] * bool(selected)
    with judging("SAMM files"):
        if nothing:
            found = [f for _, _, fs in os.walk(box.path("out")) for f in fs] if os.path.exists(box.path("out")) else []
            # aspects of branches below may have been written when the root is deprecated
            if found and not alive:
                raise Violation("nothing is selected, but files %s" % found)
            return Info(False, ["nothing"])
        ns = "urn:samm:%s:%d.%d.%d#" % (c["tns"] or "com.covesa.vss.spec", *ver)
        d = "out/%s/%d.%d.%d" % (c["tns"] or "com.covesa.vss.spec", *ver)
        if not os.path.isdir(box.path(d)):
            raise Violation("no directory %s, but %s" % (d, [x[0] for x in os.walk(box.path("out"))]))
        files = sorted(os.listdir(box.path(d)))
        g = Graph()
        per = {}
        for fn in files:
            sub = Graph()
            try:
                sub.parse(data=box.read(d + "/" + fn), format="turtle")
            except Exception as e:
                raise Violation("%s is no Turtle: %s" % (fn, str(e)[:300]))
            asp = [s for s in sub.subjects(RDF.type, URIRef(SAMM + "Aspect"))]
            if len(asp) != 1 or asp[0] != URIRef(ns + fn[:-4]):
                raise Violation("aspects of %s are %s" % (fn, asp))
            per[fn[:-4]] = sub
            g += sub

        def one(s, p, ctx, opt=False):
            v = sorted(set(g.objects(s, URIRef(p))), key=str)
            if opt and not v:
                return None
            if len(v) != 1:
                raise Violation("%s: %s has %d values of %s: %s" % (ctx, s, len(v), p.split("#")[1], v))
            return v[0]

        def props(s, ctx):
            """[(property uri, payload name or None, optional)]"""
            cols = list(g.objects(s, URIRef(SAMM + "properties")))
            if not cols:
                return []
            out = []
            if len({tuple(str(one(i, SAMM + "property", ctx, True) or i) for i in Collection(g, x)) for x in cols}) != 1:
                raise Violation("%s: several lists of properties at %s" % (ctx, s))
            for i in Collection(g, cols[0]):
                p = one(i, SAMM + "property", ctx, True)
                if p is None:
                    out.append((i, None, False))
                else:
                    o = one(i, SAMM + "optional", ctx, True)
                    pl = one(i, SAMM + "payloadName", ctx, True)
                    out.append((p, str(pl) if pl is not None else None, bool(o.value) if o is not None else False))
            return out

        def isa(s, t, ctx):
            ts = list(g.objects(s, RDF.type))
            if ts != [URIRef(t)] and set(ts) != {URIRef(t)}:
                raise Violation("%s: %s is %s, expected %s" % (ctx, s, [str(x) for x in ts], t))

        seen = {}

        def describe(ch, n, f):
            t = one(ch, SAMM + "description", f)
            if t.language != "en":
                raise Violation("%s: language of the description" % f)
            want = ["VSS path", f]
            lines = str(t)
            a = n.attrs
            parts = []
            pos = 0
            for key, val in [("VSS path", f), ("Description", a["description"]), ("Comment", a.get("comment")), ("Unit", a.get("unit"))]:
                if val is None or not str(val).strip():
                    continue
                parts.append((key, str(val)))
            import re

            pat = r"\n" + r"\n\n".join(re.escape(k) + r" *: " + re.escape(v) for k, v in parts)
            if not re.fullmatch(pat, lines, re.S):
                raise Violation("%s: description is %r, expected %r" % (f, lines, parts))
            seen.setdefault(f, []).append(ch)

        def lit(v, value, dt, ctx):
            if not isinstance(v, Literal):
                raise Violation("%s: %r is no literal" % (ctx, v))
            got = v.value if v.value is not None else str(v)
            if isinstance(value, str):
                ok = str(v) == value
            elif isinstance(value, bool):
                ok = got is value
            else:
                try:
                    ok = float(got) == float(value) and (not isinstance(value, int) or not isinstance(got, int) or got == value)
                except (TypeError, ValueError):
                    ok = False
            if not ok:
                raise Violation("%s: value is %r, expected %r" % (ctx, v, value))
            if dt and v.datatype != URIRef(XSD + dt):
                raise Violation("%s: %r is not of type %s" % (ctx, v, dt))

        def leaf(p, n, f):
            nonlocal nleaf
            nleaf += 1
            a = n.attrs
            ch = one(p, SAMM + "characteristic", f)
            arr = a["datatype"].endswith("[]")
            b = a["datatype"][:-2] if arr else a["datatype"]
            dt = "dateTimeStamp" if a.get("unit") == "iso8601" else DT[b]
            limits = a["type"] in ("sensor", "actuator") and (a.get("min") is not None or a.get("max") is not None)
            if limits:
                isa(ch, SAMMC + "Trait", f)
                con = one(ch, SAMMC + "constraint", f)
                isa(con, SAMMC + "RangeConstraint", f)
                for k in ("min", "max"):
                    v = one(con, SAMMC + k + "Value", f, True)
                    if (v is None) != (a.get(k) is None):
                        raise Violation("%s: %s is %s, expected %s" % (f, k, v, a.get(k)))
                    if v is not None:
                        lit(v, a[k], dt, "%s.%s" % (f, k))
                ch = one(ch, SAMMC + "baseCharacteristic", f)
            describe(ch, n, f)
            if one(ch, SAMM + "dataType", f) != URIRef(XSD + dt):
                raise Violation("%s: datatype %s, expected %s" % (f, one(ch, SAMM + "dataType", f), dt))
            default = a.get("default")
            ex = one(p, SAMM + "exampleValue", f, True)
            dv = one(ch, SAMMC + "defaultValue", f, True)
            un = one(ch, SAMMC + "unit", f, True)
            vals = one(ch, SAMMC + "values", f, True)
            kind = "allowed" if a.get("allowed") else "list" if arr else "measurement" if a.get("unit") and a["unit"] != "iso8601" else "plain"
            if kind == "allowed":
                if arr:
                    default = None  # SAMM has no list literals
                isa(ch, SAMMC + ("Enumeration" if default is None else "State"), f)
                got = list(Collection(g, vals)) if vals is not None else []
                if len(got) != len(a["allowed"]):
                    raise Violation("%s: values %s, expected %s" % (f, got, a["allowed"]))
                for x, y in zip(got, a["allowed"]):
                    lit(x, y, None, f + ".allowed")
                if (dv is None) != (default is None):
                    raise Violation("%s: default %r, expected %r" % (f, dv, default))
                if dv is not None:
                    lit(dv, default, dt, f + ".default")
            elif vals is not None or dv is not None:
                raise Violation("%s: enumeration values without need" % f)
            if kind == "list":
                isa(ch, SAMMC + "List", f)
            if kind == "measurement":
                isa(ch, SAMMC + "Measurement", f)
                w = UNIT_URI.get(a["unit"], "blank")
                if un != URIRef(UNIT + w):
                    raise Violation("%s: unit %s, expected %s" % (f, un, w))
            elif un is not None:
                raise Violation("%s: unexpected unit %s" % (f, un))
            if kind == "plain":
                isa(ch, SAMM + "Characteristic", f)
            if kind in ("plain", "measurement") and not arr:
                if a.get("unit") == "iso8601":
                    # there is no year 0
                    if (None if ex is None else str(ex)) != (None if str(default).startswith("0000") else default):
                        raise Violation("%s: example %r" % (f, ex))
                else:
                    if (ex is None) != (default is None):
                        raise Violation("%s: example %r, expected %r" % (f, ex, default))
                    if ex is not None:
                        lit(ex, default, dt, f + ".default")
            labels.append(kind)

        def branch(p, n, f, dpt):
            ch = one(p, SAMM + "characteristic", f)
            levels = ref.instance_levels(n.attrs.get("instances"))

            def down(ch, i, ctx):
                if i == len(levels):
                    return [ch]
                isa(ch, SAMMC + "SingleEntity", ctx)
                ent = one(ch, SAMM + "dataType", ctx)
                isa(ent, SAMM + "Entity", ctx)
                ps = props(ent, ctx)
                if [x[1] for x in ps] != [lc(y) for y in levels[i]]:
                    raise Violation("%s: instances are %s, expected %s" % (ctx, [x[1] for x in ps], levels[i]))
                out = []
                for pr, pl, o in ps:
                    if not o:
                        raise Violation("%s: instance %s is not optional" % (ctx, pl))
                    isa(pr, SAMM + "Property", ctx)
                    out += down(one(pr, SAMM + "characteristic", ctx), i + 1, ctx + "." + pl)
                return out

            chs = down(ch, 0, f)
            if len(set(chs)) != 1:
                raise Violation("%s: the instances have different characteristics %s" % (f, set(chs)))
            ch = chs[0]
            if levels:
                labels.append("instances")
            isa(ch, SAMM + "Characteristic", f)
            describe(ch, n, f)
            ent = one(ch, SAMM + "dataType", f)
            isa(ent, SAMM + "Entity", f)
            kids = [k for k in n.children.values() if not skipped(k, dpt + 1)]
            ps = props(ent, f)
            if [x[1] for x in ps] != [lc(k.name) for k in kids]:
                raise Violation("%s: properties are %s, expected %s" % (f, [x[1] for x in ps], [k.name for k in kids]))
            for (pr, _, _), k in zip(ps, kids):
                g2 = f + "." + k.name
                isa(pr, SAMM + "Property", g2)
                if k.type == "branch":
                    branch(pr, k, g2, dpt + 1)
                else:
                    leaf(pr, k, g2)

        # the aspects: the root and, if split, the branches down to the depth
        want = []

        def aspects(n, f, dpt):
            if skipped(n, dpt):
                return
            want.append(f)
            for k in n.children.values():
                if split and k.type == "branch" and dpt + 1 <= depth:
                    aspects(k, f + "." + k.name, dpt + 1)

        aspects(root, root.name, 0)
        asp = URIRef(ns + root.name)
        if (asp, None, None) not in g:
            raise Violation("no aspect %s in %s" % (asp, files))
        ps = props(asp, "aspect")
        if len(ps) != 1:
            raise Violation("properties of the aspect: %s" % ps)
        branch(ps[0][0], root, root.name, 0)
        if len(files) != len(want):
            raise Violation("aspects %s, expected those of %s" % (files, want))
        described = {}
        for s, o in g.subject_objects(URIRef(SAMM + "description")):
            described.setdefault(s, []).append(o)
        for f, chs in seen.items():
            if len(set(chs)) != 1:
                raise Violation("%s is described at %s" % (f, set(chs)))
        extra = set(described) - {x for v in seen.values() for x in v}
        if extra:
            raise Violation("nodes that are not in the model: %s" % sorted(str(described[x][0]) for x in extra)[:3])
        # each split aspect leads to its branch
        tops = set()
        for fn, sub in per.items():
            (p,) = [x[0] for x in props(URIRef(ns + fn), fn)]
            if (p, RDF.type, URIRef(SAMM + "Property")) not in sub:
                raise Violation("aspect %s does not define its property %s" % (fn, p))
            tops.add(p)
        if len(tops) != len(want):
            raise Violation("aspects lead to %s" % tops)
    return Info(nleaf >= 3, sorted(set(labels)))
