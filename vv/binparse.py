"""The binary parser libraries (C, Go): build, drive by a script, model of what they must answer."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

from . import ref
from .engine import Info
from .env import HERE, REPO
from .gen import Cfg, emit, gen_nodes, prob
from .runner import Inconclusive, Violation, judging

CFG = Cfg(max_nodes=12, max_depth=5, instances=0.3, instantiate=0.1, text="rich", ext=0.0, comments=0.1, units=0.3,
          unit_table={"km": {"unit": "kilometer", "allowed-datatypes": ["numeric"]}, "iso8601": {"unit": "ISO 8601", "allowed-datatypes": ["string"]}})
VALIDATE = ["read-write", "write-only", "read-write+consent", "write-only+consent"]
TYPES = {"sensor": 1, "actuator": 2, "attribute": 3, "branch": 4}


def go_env(tmp):
    e = dict(os.environ)
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly -buildvcs=false", GOCACHE=os.path.join(tmp, "gocache"), GOPATH=os.path.join(tmp, "gopath"), GO111MODULE="on")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin"
    return e


def build(lang, tmp):
    src = os.path.join(REPO, "binary")
    exe = os.path.join(tmp, lang + "drv")
    if lang == "c":
        cmd = ["cc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + os.path.join(src, "c_parser"),
               os.path.join(HERE, "drivers", "cdrv.c"), os.path.join(src, "c_parser", "cparserlib.c"), "-o", exe]
        r = subprocess.run(cmd, capture_output=True, text=True)
    else:
        d = os.path.join(tmp, "go_parser")
        shutil.copytree(os.path.join(src, "go_parser"), d)
        os.makedirs(os.path.join(d, "vvdrv"))
        shutil.copy(os.path.join(HERE, "drivers", "godrv.go.txt"), os.path.join(d, "vvdrv", "main.go"))
        r = subprocess.run(["go", "build", "-o", exe, "./vvdrv"], cwd=d, env=go_env(tmp), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("cannot build the %s parser: %s" % (lang, r.stderr[-2000:]))
    return exe


def run(exe, box, script):
    box.write("script", "\n".join(script) + "\n")
    if box.exists("answers"):
        os.unlink(box.path("answers"))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=98", GOMAXPROCS="2")
    try:
        p = subprocess.run([exe, "script", "answers"], cwd=box.root, capture_output=True, env=env, timeout=120)
    except subprocess.TimeoutExpired:
        raise Violation("the parser does not terminate")
    if p.returncode:
        raise Violation("the parser fails (exit %s): %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[:1500]))
    lines = box.read("answers").splitlines()
    if not lines or lines[-1] != "end":
        raise Violation("the parser stopped early: %s" % lines[-2:])
    return lines[:-1], p.stdout.decode("utf-8", "replace")


@st.composite
def cases(draw):
    d = draw
    base = gen_nodes(d, CFG)
    dense = d(st.sampled_from([0.3, 0.3, 0.8]))
    for k in list(base):
        if prob(d, dense):
            base[k]["validate"] = d(st.sampled_from(VALIDATE))
        a = base[k]
        if a.get("datatype") == "string" and prob(d, 0.3):
            a.pop("default", None)
            if prob(d, 0.15):
                a["allowed"] = ["v%d" % i for i in range(d(st.sampled_from([126, 127, 128, 129, 200, 254, 255])))]
                continue
            a["allowed"] = d(st.lists(st.sampled_from(["a", "b" * 15, "c" * 16, "d" * 63, "e" * 64, "f" * 255, "\u00e9" * 20, "O A"]), min_size=1, max_size=4, unique=True))
        if a.get("datatype") == "string" and not a.get("allowed") and not a.get("pattern") and prob(d, 0.1):
            a["default"] = "D" * d(st.sampled_from([1, 99, 100, 101, 127, 128, 200, 255]))
        if prob(d, 0.05):
            a["description"] = d(st.sampled_from(["x" * 255, "y" * 256, "\u00e9" * 200, "z" * 3000, "w" * 4200, "\u00e9" * 17000]))
    if prob(d, 0.15):
        ks = [k for k in base if base[k]["type"] == "branch"]
        k = d(st.sampled_from(ks)) + ".L" + "o" * d(st.sampled_from([97, 98, 99, 100, 150, 220]))
        if d(st.booleans()):
            base[k] = {"type": "branch", "description": "long name"}
            k += ".M" + "o" * d(st.sampled_from([60, 98, 99, 150]))
        base[k] = {"type": "sensor", "datatype": "uint8", "description": "long name"}
    if prob(d, 0.1):
        p = next(iter(base))
        for i in range(d(st.sampled_from([6, 10]))):
            p += ".D%d" % i
            base[p] = {"type": "branch", "description": "deep"}
        base[p + ".Leaf"] = {"type": "sensor", "datatype": "uint8", "description": "deep leaf"}
    if prob(d, 0.04):
        p = next(iter(base))
        for i in range(d(st.sampled_from([127, 128, 129, 200]))):
            base[p + ".Sib%d" % i] = {"type": "sensor", "datatype": "uint8", "description": "one of many"}
    begins = []
    if prob(d, 0.3):
        # a sibling whose name begins with that of another node, with the same contents
        f = d(st.sampled_from([k for k in base if base[k]["type"] == "branch" and "." in k] or list(base)))
        g = f + d(st.sampled_from(["x", "2", "Ext", "_"]))
        if "." in f and not any(k == g or k.startswith(g + ".") for k in base):
            begins = [f]
            base.update({g + k[len(f) :]: dict(a) for k, a in list(base.items()) if k == f or k.startswith(f + ".")})
    tree = ref.build([base])
    paths = [f for f, _ in tree.walk()]
    leafs = [f for f, n in tree.walk() if n.type != "branch"]
    if not leafs:
        base[next(iter(base)) + ".OnlyLeaf"] = {"type": "sensor", "datatype": "uint8", "description": "leaf"}
        tree = ref.build([base])
        paths = [f for f, _ in tree.walk()]
        leafs = [f for f, n in tree.walk() if n.type != "branch"]
    script = []
    for _ in range(d(st.integers(2, 8))):
        op = d(st.sampled_from(["search", "search", "search", "search", "leafs", "uuids", "write"]))
        if op != "search":
            script.append([op, d(st.sampled_from(["f1", "f2"] if op != "write" else ["t1", "t2"]))])
            continue
        src = d(st.sampled_from(["leaf", "leaf", "any", "wrong"]))
        p = d(st.sampled_from(leafs if src == "leaf" else paths)).split(".")
        stars = d(st.sampled_from([0.3, 0.3, 0.8]))
        for i in range(len(p)):
            if prob(d, stars):
                p[i] = "*"
        if src == "wrong":
            p = d(st.sampled_from([p + ["Nope"], p[:-1] + ["No"], p + [p[-1]], p + ["*"], p[:1] + p, p[:-1] + [p[-1] + "x"], p[:-1] + [p[-1][:-1] or "Q"], p + ["*", "*"]]))
        elif prob(d, 0.3) and len(p) > 1:
            p = p[: d(st.integers(1, len(p) - 1))] + ["*"]
        leaf_only = not prob(d, 0.25)
        any_depth = d(st.booleans()) if leaf_only else False
        scope = d(st.lists(st.sampled_from(begins if begins and prob(d, 0.5) else paths), max_size=d(st.sampled_from([1, 2, 4])), unique=True)) if leaf_only and prob(d, 0.6 if begins else 0.3) else []
        if scope and prob(d, 0.5):
            if prob(d, 0.5):
                p, any_depth = p[:1] + ["*"], True
            else:
                p = ["*"] * len(p)
        script.append(["search", ".".join(p), int(any_depth), int(leaf_only), scope])
    return {"base": base, "script": script, "uuid": d(st.booleans()), "junk": prob(d, 0.2)}


def search(nodes, path, any_depth, leaf_only, scope):
    segs = path.split(".")
    n = len(segs)
    out = []

    def ok(parts, segs):
        return all(s == "*" or s == p for p, s in zip(parts, segs))

    for f, nd in nodes:
        parts = f.split(".")
        if leaf_only:
            if nd.type == "branch" or len(parts) < n or not ok(parts, segs):
                continue
            if len(parts) > n and not (any_depth and segs[-1] == "*"):
                continue
            if any(f.startswith(s + ".") for s in scope):
                continue
            out.append(f)
        else:
            k = len(parts)
            if k > n or not ok(parts, segs):
                continue
            if "*" in segs[:k] and not any(
                (g == f or g.startswith(f + ".")) and g.count(".") + 1 == n and ok(g.split("."), segs) for g, _ in nodes
            ):
                continue
            out.append(f)
    return out


def rights(values):
    r = c = 0
    for v in values:
        if v:
            r = max(r, 2 if "read-write" in v else 1)
            c |= "consent" in v
    return r + (10 if c else 0)


def check(exe, c, box):
    tree = ref.build([c["base"]])
    nodes = list(tree.walk())
    if max(len(f.encode()) for f, _ in nodes) >= 500 or len(nodes) > 1000:
        return Info(False, ["too big"])
    for f, n in nodes:
        if any(len(str(n.attrs.get(k, "")).encode()) > 255 for k in ("min", "max", "unit", "default")) or any(
            len(str(x).encode()) > 255 for x in n.attrs.get("allowed") or []
        ) or any("\0" in str(v) for v in n.attrs.values()):
            return Info(False, ["does not fit"])
    args = emit(box, {"base": c["base"]}) + ["-e", "validate", "-o", "tree.bin"] + (["--uuid"] if c["uuid"] else [])
    box.must("binary", *args)
    if c.get("junk"):  # files of earlier runs are replaced
        for fn in ("f1", "f2", "t1", "t2", "again.bin"):
            box.write(fn, "old " * 20000)
    script = ["read tree.bin", "dump"]
    want_files = {}
    leafs = [f for f, n in nodes if n.type != "branch"]
    uuids = [{"path": f, "uuid": ref.uuid_of(f) if c["uuid"] else ""} for f in leafs]
    for s in c["script"]:
        script.append(" ".join(str(x) for x in s[:4]) + ((" %d" % len(s[4]) + "".join(" " + x for x in s[4])) if s[0] == "search" else ""))
        if s[0] == "leafs":
            want_files[s[1]] = {"leafpaths": leafs}
        elif s[0] == "uuids":
            want_files[s[1]] = {"leafuuids": uuids}
        elif s[0] == "write":
            want_files[s[1]] = "tree"
    script += ["write again.bin", "read again.bin", "dump"]
    lines, said = run(exe, box, script)
    labels = {"cases"}
    with judging("answers of the parser"):
        pos = 0

        def unhex(x):
            return None if x == "-" else bytes.fromhex(x[1:]).decode("utf-8")

        def dump():
            nonlocal pos
            for f, n in nodes:
                w = lines[pos].split(" ")
                pos += 1
                a = n.attrs
                branch = n.type == "branch"
                want = [
                    "node", str(TYPES[n.type]), str(rights([a.get("validate")])), str(len(n.children)), "1",
                ]
                if w[:5] != want:
                    raise Violation("%s: type, validate, children, parent: %s, expected %s" % (f, w[1:5], want[1:]))
                got = [unhex(x) or "" for x in w[5:10]]
                exp = [n.name, ref.uuid_of(f) if c["uuid"] else "", a.get("description", ""), "" if branch else a["datatype"], "" if branch else a.get("unit") or ""]
                if got != exp:
                    raise Violation("%s: name, uuid, description, datatype, unit: %r, expected %r" % (f, got, exp))
                al = [unhex(x) for x in w[11:]]
                exp = [str(x) for x in a.get("allowed") or []]
                if len(exp) <= 255 and (int(w[10]) != len(exp) or al != exp):
                    raise Violation("%s: allowed %r, expected %r" % (f, al, exp))

        # both readings tell the size of the tree
        sizes = [int(x) for x in re.findall(r"(?:number of nodes|depth) .*?= (\d+)", said)]
        depth = max(f.count(".") for f, _ in nodes) + 1
        if sizes != [len(nodes), depth] * 2:
            raise Violation("numbers of nodes and depths %s, expected %s twice" % (sizes, [len(nodes), depth]))
        dump()
        for s in c["script"]:
            if s[0] in ("leafs", "uuids"):
                if lines[pos] != "count %d" % len(leafs):
                    raise Violation("%s: %s, expected %d" % (s[0], lines[pos], len(leafs)))
                pos += 1
            elif s[0] == "search":
                w = lines[pos].split(" ")
                pos += 1
                want = search(nodes, s[1], s[2], s[3], s[4])
                got = [unhex(x) for x in w[3:]]
                if w[0] != "found" or int(w[1]) != len(want) or got[0::2] != want or got[1::2] != [x.rsplit(".", 1)[-1] for x in want]:
                    raise Violation("search %s: found %s %s, expected %s" % (s[1:], w[1], got[0::2][:6], want[:6]))
                labels.add("search:" + ("wildcard" if "*" in s[1] else "literal") + ("" if want else " none"))
                # at least the rights of what was found and of the way there, at most those of all nodes on the way
                segs = s[1].split(".")
                way = [n.attrs.get("validate") for f, n in nodes if any(g == f or g.startswith(f + ".") for g in want)]
                seen = [n.attrs.get("validate") for f, n in nodes
                        if all(x in (y, "*") for x, y in zip(segs, f.split("."))) and (f.count(".") < len(segs) or s[2] and segs[-1] == "*")
                        and not any(f.startswith(x + ".") for x in s[4])]
                lo, hi, got = rights(way), rights(seen), int(w[2])
                if not (lo % 10 <= got % 10 <= hi % 10 and lo // 10 <= got // 10 <= hi // 10):
                    raise Violation("search %s: access control %d, expected between %d and %d" % (s[1:], got, lo, hi))
                if "*" not in s[1] and want == [s[1]] and not s[4]:
                    chain = [n.attrs.get("validate") for f, n in nodes if s[1] == f or s[1].startswith(f + ".")]
                    labels.add("access control")
                    if int(w[2]) != rights(chain):
                        raise Violation("search %s: access control %s, expected %d for %s" % (s[1], w[2], rights(chain), chain))
        dump()
        if pos != len(lines):
            raise Violation("unexpected answers: %s" % lines[pos:][:3])
        orig = box.read("tree.bin", "rb")
        for fn, want in list(want_files.items()) + [("again.bin", "tree")]:
            if want == "tree":
                if box.read(fn, "rb") != orig:
                    raise Violation("writing the tree back changes it")
            else:
                got = json.loads(box.read(fn))
                if got != want:
                    raise Violation("node list %s, expected %s" % (str(got)[:300], str(want)[:300]))
                labels.add("list file")
    return Info(any(s[0] == "search" for s in c["script"]) and len(nodes) > 3, labels)
