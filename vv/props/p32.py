"""Every export depends on nothing but the model and the options."""
import json
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from .. import env
from ..engine import Info
from ..exporters import ALL, EXPAND, NO_TYPES, UUID, clear, out_args
from ..gen import DATE, EXT, QUANTITIES, UNITS, Cfg, dump, emit, models, prob
from ..runner import Inconclusive, Violation

RULE = (
    "Generated models exported by each of the 14 exporters with generated options, and once more in one of these ways: a fresh process "
    "with another hash seed and time zone, over the existing (longer) output, from another directory with absolute paths, with other "
    "log options, with the attributes in another order, with the YAML spelled differently (flow style, quoted, CRLF, JSON), with the model "
    "overlaid by itself or by parts of itself, with the same model from many files (includes by way of -I, overlays restoring texts and adding nodes, several files of struct types, units "
    "and quantities), with the options in another order, by their long names or given by environment variables. All output files have to be the same byte for byte. Non-trivial: the export succeeds."
)
COUNTS = {"quick": 1400, "thorough": 24000}
CFG = Cfg(max_nodes=9, ext=0.25, ext_max=4, structs=0.35, comments=0.3)
WAYS = ["process", "process", "again", "cwd", "log", "order", "spelling", "overlay", "partial", "options", "options", "parts", "parts", "parts"]
LOCALES = [{"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX"}]
# ways that leave the files as they are
FILES = ["process", "again", "cwd", "log", "options"]
CORE = ["type", "datatype", "description", "comment", "deprecation", "unit", "min", "max", "allowed", "default", "arraysize", "instances", "instantiate"]


@st.composite
def strategy_(draw):
    d = draw
    ex = d(st.sampled_from(ALL))
    way = d(st.sampled_from(WAYS))
    m = d(models(Cfg(**{**CFG.__dict__, "structs": 0.0}) if ex in NO_TYPES else CFG))
    opts = []
    if ex in EXPAND and prob(d, 0.4):
        opts.append("--no-expand")
    if ex in UUID and d(st.booleans()):
        opts.append("--uuid")
    extra = {
        "protobuf": ["--add-optional"], "jsonschema": ["--require-all-properties", "--no-additional-properties", "--extend-all-attributes", "--pretty"],
        "json": ["--pretty", "--extend-all-attributes"], "yaml": ["--extend-all-attributes"], "go": ["--no-short-names", "--package=p"],
        "ddsidl": ["--all-idl-features"], "id": ["--case-sensitive"], "samm": ["--no-split", "--split-depth=2", "--target-namespace=org.x"],
        "graphql": ["-g", "-g"], "franca": ["--franca-vss-version=1.2"], "tree": ["--attr", "--attr", "--attr"], "apigear": ["--apigear-template-qt5-path=q"],
    }.get(ex, [])
    for o in extra:
        if d(st.booleans()):
            opts.append(o)
            if o == "-g":
                opts.append(d(st.sampled_from(["added,Some text", "other,Text", "more,x"])))
            elif o == "--attr":
                opts.append(d(st.sampled_from(["description", "type", "allowed", "default", *EXT])))
    if prob(d, 0.4):
        for e in d(st.lists(st.sampled_from(EXT), min_size=1, max_size=4, unique=True)):
            opts += ["-e", e]
    return {"m": m, "ex": ex, "opts": opts, "way": way, "sep": d(st.booleans()), "inc": way in FILES and prob(d, 0.5), "n": d(st.integers(0, 7)), "k": d(st.integers(0, 10**6))}


def strategy(tier):
    return strategy_()


def outputs(box):
    return {k: v for k, v in box.tree_listing().items() if k.startswith("out")}


def respell(data, n):
    import yaml

    # 1e+300 is a number in JSON, but not in YAML 1.1
    # and a date is none
    if n % 4 == 0 and not re.search(r"\de[+-]?\d|%s" % DATE, json.dumps(data)):
        return json.dumps(data, indent=1, ensure_ascii=False)
    if n % 4 < 2:
        return yaml.safe_dump(data, sort_keys=False, allow_unicode=True, default_flow_style=True, width=60).replace("'%s'" % DATE, DATE)
    if n % 4 == 2:
        return yaml.safe_dump(data, sort_keys=False, allow_unicode=False, indent=4, width=40, explicit_start=True).replace("'%s'" % DATE, DATE)
    return "# comment\n\n" + dump(data).replace("\n", "\r\n")


LONG = {"-s": "--vspec", "-o": "--output", "-t": "--types", "-l": "--overlays", "-u": "--units", "-q": "--quantities", "-I": "--include-dirs",
        "-e": "--extended-attributes", "-a": "--aborts"}
ENV = {"--vspec": "VSPEC", "--output": "OUTPUT", "--uuid": "UUID", "--pretty": "PRETTY", "--extend-all-attributes": "EXTEND_ALL_ATTRIBUTES", "--types-output": "TYPES_OUTPUT"}


def respell_options(ex, run, n):
    """The same options: long names, name=value, other order, given more than once, by the environment."""
    opts, i = [], 0
    while i < len(run):
        if i + 1 < len(run) and not run[i + 1].startswith("-"):
            opts.append((run[i], run[i + 1]))
            i += 2
        else:
            opts.append((run[i], None))
            i += 1
    # only the order within one option counts
    names = list(dict.fromkeys(o for o, _ in opts))
    k = n % len(names)
    names = names[k:] + names[:k] if n < 4 else names[::-1]
    opts = [x for nm in names for x in opts if x[0] == nm]
    env, out = {}, []
    for j, (o, v) in enumerate(opts):
        lg = LONG.get(o, o)
        if lg in ENV and (n + j) % 3 == 0:
            env["VSS_TOOLS_EXPORT_%s_%s" % (ex.upper(), ENV[lg])] = "1" if v is None else v
        elif v is None:
            out += [lg, lg] if o.startswith("--") and "=" not in o and o != "--attr" else [lg]
        elif (n + j) % 3 == 1 and lg.startswith("--"):
            out.append(lg + "=" + v)
        else:
            out += [lg, v]
    return out, env


def parts(box, m, k):
    """The same model from many files: a part included by way of -I, a part added and texts restored by overlays, struct
    types from two files, units and quantities from files of other names."""
    base, args = {n: dict(a) for n, a in m["base"].items()}, []
    names = list(base)
    root, over = names[0].split(".")[0], {}
    for i, n in enumerate(names):
        if i and "description" in base[n] and (k >> i % 7) % 3 == 0:
            a = base[n]
            over[n] = {x: a[x] for x in a if x in ("type", "datatype", "description", "comment")}
            a["description"] = "Replaced by the overlay."
            if "comment" in a:
                a["comment"] = "Replaced as well."
    # only what comes last can be moved with the order of the nodes unchanged
    cut = 1 + k % len(names)
    cut2 = cut + (k // 7) % (len(names) - cut + 1)
    inc, add = names[cut:cut2], names[cut2:]
    for n in add:
        over[n] = {**base[n], **over.get(n, {})}
    box.write("root.vspec", dump({n: base[n] for n in names[:cut]}) + ("#include more/part.vspec %s\n" % root if inc else ""))
    if inc:
        box.write("incl/one/more/part.vspec", dump({n[len(root) + 1 :]: base[n] for n in inc}))
        os.makedirs(box.path("incl/two"))
        args += ["-I", "incl/two", "-I", "incl/one"]
    args += ["-s", "root.vspec"]
    ov = {n: over[n] for n in names if n in over}
    ks = [n for n in ov if n not in add]
    first = {n: ov[n] for i, n in enumerate(ks) if i % 2}
    for i, o in enumerate([first, {n: a for n, a in ov.items() if n not in first}]):
        if o:
            box.write("o%d.vspec" % i, dump(o))
            args += ["-l", "o%d.vspec" % i]
    if m["types"]:
        tn = list(m["types"])
        # a struct is not divided
        t = 1 + k % len(tn)
        while t < len(tn) and m["types"][tn[t]]["type"] == "property":
            t += 1
        box.write("types.vspec", dump({n: m["types"][n] for n in tn[:t]}))
        args += ["-t", "types.vspec"]
        if tn[t:]:
            box.write("types2.vspec", dump({n: m["types"][n] for n in tn if n in tn[t:] or any(y.startswith(n + ".") for y in tn[t:])}))
            args += ["-t", "types2.vspec"]
    u, q = m.get("units") or UNITS, m.get("quantities") or QUANTITIES
    h = k % 3
    for nm, o, x in (("units", "-u", u), ("quantities", "-q", q)):
        if h:
            os.unlink(box.path(nm + ".yaml"))
            if h == 2:
                box.write(nm + ".yaml", "{}\n")
            ns = list(x)
            c = k % (len(ns) + 1) or len(ns)
            for i, part in enumerate((ns[:c], ns[c:])):
                if part:
                    box.write("defs/%s%d.yaml" % (nm, i), dump({y: x[y] for y in part}))
                    args += [o, "defs/%s%d.yaml" % (nm, i)]
    return args


def check(c, box):
    m, ex, way, n = c["m"], c["ex"], c["way"], c["n"]
    if n % 2 and not m.get("units"):
        m = {**m, "units": {**UNITS, "\u00b5m": {"definition": "\u00c4ngstr\u00f6m and more", "unit": "\u00b5-meter", "quantity": "length", "allowed-datatypes": ["numeric"]}},
             "quantities": {**QUANTITIES, "gr\u00f6\u00dfe": {"definition": "\u65e5\u672c"}}}
    args = emit(box, m)
    oa = out_args(ex, bool(m["types"]), c["sep"])
    if ex == "csv" and m["types"] and "--types-output" not in oa:
        oa += ["--types-output", "out.types"]
    if c.get("inc"):
        # the same file in several include directories
        root = next(iter(m["base"])).split(".")[0]
        box.write("root.vspec", dump(m["base"]) + "#include inc.vspec %s\n" % root)
        for i in range(3):
            box.write("dir%d/inc.vspec" % i, dump({"Incl%d" % (i * 5 % 3): {"type": "sensor", "datatype": "uint8", "description": "Some text.", "max": i}}))
            args += ["-I", "dir%d" % i]
    run = [*args, *oa, *c["opts"]]
    r1 = box.export(ex, *run)
    o1 = outputs(box)
    what = "%s %s, %s:" % (ex, " ".join(c["opts"]), way)
    if r1.signal:
        raise Violation("%s dies from signal %d" % (what, r1.signal))
    if way == "again":
        if ex == "apigear" or not r1.ok:
            clear(box)
        else:
            for k in o1:
                box.write(k, o1[k] + b"\n# stale" * 20 if n % 2 else o1[k])
        code = box.export(ex, *run).code
    elif way == "process":
        clear(box)
        e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        e.update(PYTHONHASHSEED=str(1 + n * 7919), PYTHONPATH=os.path.join(env.REPO, "src"), PYTHONDONTWRITEBYTECODE="1", TZ=["UTC", "Asia/Tokyo"][n % 2],
                 PYTHONNOUSERSITE="1", **LOCALES[n % 3], COLUMNS=str(40 + 30 * n), HOME=box.root)
        try:
            code = subprocess.run([sys.executable, "-c", "from vss_tools.vspec.cli import cli; cli(prog_name='vspec')", "--log-level", "CRITICAL", "export", ex, *run],
                                  cwd=box.root, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
        except subprocess.TimeoutExpired:
            raise Inconclusive("timeout")
        box.commands += 1
    elif way == "cwd":
        clear(box)
        os.makedirs(box.path("work/dir"))
        a2, prev = [], None
        for a in run:
            if prev in ("-s", "-t", "-l", "-I"):
                a = box.path(a)
            elif prev in ("-o", "-tf", "--output-dir", "--types-out-dir", "--types-output"):
                a = "../../" + a if n % 2 else box.path(a)
            a2.append(a)
            prev = a
        code = box.export(ex, *a2, cwd=box.path("work/dir")).code
        if os.listdir(box.path("work/dir")):
            raise Violation("%s files %s are written to the working directory" % (what, os.listdir(box.path("work/dir"))))
    elif way == "log":
        clear(box)
        code = box.export(ex, *run, level=["DEBUG", "INFO", "WARNING", "CRITICAL"][n % 4]).code
    elif way == "order":
        clear(box)
        m2 = {**m}
        for part in ("base", "types"):
            if m[part]:
                m2[part] = {}
                for k, a in m[part].items():
                    ks = [x for x in a if x in CORE]
                    ks = ks[n % max(1, len(ks)) :] + ks[: n % max(1, len(ks))]
                    if n % 2:
                        ks.reverse()
                    # the types of dictionaries and lists are those of the user
                    m2[part][k] = {x: a[x] for x in ks + [x for x in a if x not in CORE][:: -1 if n % 3 else 1]}
        emit(box, m2)
        code = box.export(ex, *run).code
    elif way == "parts":
        clear(box)
        code = box.export(ex, *parts(box, m, c["k"]), *oa, *c["opts"]).code
    elif way == "options":
        clear(box)
        a2, e = respell_options(ex, run, n)
        os.environ.update(e)
        try:
            code = box.export(ex, *a2).code
        finally:
            for k in e:
                del os.environ[k]
    elif way == "spelling":
        clear(box)
        box.write("root.vspec", respell(m["base"], n))
        if m["types"]:
            box.write("types.vspec", respell(m["types"], n + n // 4))
        code = box.export(ex, *run).code
    else:
        clear(box)
        ov = m["base"]
        if way == "partial":
            ov = {k: {x: v for x, v in a.items() if x in ("type", "datatype") or (i + j) % (2 + n % 3) == 0} for i, (k, a) in enumerate(ov.items()) for j in [0]}
            ov = {k: a for i, (k, a) in enumerate(ov.items()) if (i + n) % 3}
        box.write("same.vspec", dump(ov))
        code = box.export(ex, *run, *(["-l", "same.vspec"] if ov else [])).code
    if (code == 0) != r1.ok:
        raise Violation("%s exit status %s, but %s before: %s" % (what, code, r1.code, r1.tail()))
    o2 = outputs(box)
    if o1 != o2:
        ch = sorted(k for k in set(o1) | set(o2) if o1.get(k) != o2.get(k))
        a, b = o1.get(ch[0]), o2.get(ch[0])
        at = next((i for i, (x, y) in enumerate(zip(a or b"", b or b"")) if x != y), min(len(a or b""), len(b or b"")))
        raise Violation("%s %s differs: %r and %r" % (what, ch[:3], a if a is None else a[max(0, at - 60) : at + 60], b if b is None else b[max(0, at - 60) : at + 60]))
    if not r1.ok:
        return Info(False, ["rejected", ex])
    if not o1:
        return Info(False, ["no output", ex])
    return Info(True, [ex, way])
