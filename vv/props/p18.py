"""UIDs of one export are unique, or the export aborts and leaves nothing behind."""
from hypothesis import strategies as st

from .. import ids, ref
from ..engine import Info
from ..gen import Cfg, emit, gen_nodes, prob
from ..runner import Violation, judging

RULE = (
    "Generated models to which 0-2 potential collisions are added: equal constUIDs (same or different hex case), a "
    "constUID equal to the computed UID of another node (before or after it in the tree, also far apart in large trees), the same fka on equal "
    "signals, names differing only in letter case, real FNV-1 collisions found by birthday search, colliding instances; "
    "with and without --case-sensitive and an existing output file. Non-trivial: a potential collision was placed."
)
COUNTS = {"quick": 2000, "thorough": 32000}
CFG = Cfg(max_nodes=6, max_depth=3, instances=0.25, text="plain", ext=0.0, attrs=False, uids=0.1, roots=["V", "Vehicle", "A"])
# child names of the root that really collide (FNV-1, found by random search): (root, case sensitive) -> pairs
PAIRS = {
    ('V', False): [('Enjqpjn', 'Wtshb57'), ('La9skvi', 'Pci8pux'), ('Ckaph3c', 'Ko6zrk4'), ('Rynasqp', 'Fgqpwk8')],
    ('V', True): [('B0v3mih', 'W778xqu'), ('Jza3yay', 'I3mqjv9'), ('Ft0a9nh', 'Thlzbp2'), ('Nnnj4fj', 'Qwa49hx')],
    ('Vehicle', False): [('Ph00zau', 'Vvuoavo'), ('Ynv09v9', 'Yih30ge'), ('Qmqmj4h', 'Uo158fj'), ('Jrz86hs', 'T4nvmtf')],
    ('Vehicle', True): [('Lbz76g4', 'Wlivtl6'), ('Nrf20ut', 'Cygc94t'), ('Xxucv28', 'Sesekpc'), ('Nwsiv3z', 'Drsycmd')],
    ('A', False): [('Uc91f1c', 'I3nua00'), ('Wrol9gy', 'Exdgvjk'), ('Jqr7f9i', 'Qghfdcm'), ('Fqcrvhq', 'K6hpdsk')],
    ('A', True): [('K893om4', 'Ehgci4a'), ('Bfz2imh', 'Iedjd68'), ('Wmzkp1r', 'Rolv86q'), ('Yt6b9g1', 'X6dvp13')],
}


@st.composite
def strategy_(draw):
    d = draw
    cs = d(st.booleans())
    kinds = d(st.lists(st.sampled_from(["const", "const_hash", "fka", "case", "fnv", "instance", "fka_hash"]), min_size=1, max_size=2))
    if prob(d, 0.1):
        kinds = []
    base = gen_nodes(d, CFG)
    root = next(iter(base))
    placed = []
    for i, kind in enumerate(kinds):
        bs = [k for k, a in base.items() if a["type"] == "branch"]
        p, q = d(st.sampled_from(bs)), d(st.sampled_from(bs))
        leaf = {"type": "sensor", "datatype": "uint8", "description": "c"}
        if kind == "const":
            u = d(st.sampled_from(["0x0000ABCD", "0xDEADBEEF", "0x12345678"]))
            v = d(st.sampled_from([u, "0x" + u[2:].lower(), "0x" + u[2:].lower(), "0x0000ABCE"]))
            base[p + ".Zc%d" % i] = {**leaf, "constUID": u}
            base[q + ".Ac%d" % i] = {**leaf, "constUID": v}
        elif kind == "const_hash":
            ks = [k for k in base if not base[k].get("constUID")]
            k = d(st.sampled_from(ks)) if ks else root
            u = ids.uid({x: y for x, y in base[k].items()}, k, (), cs)
            if d(st.booleans()):
                u = "0x" + u[2:].lower()
            base[q + ".%sh%d" % (d(st.sampled_from("AZ")), i)] = {**leaf, "constUID": u}
        elif kind == "fka":
            f = d(st.sampled_from([["V.Was"], "V.Was"]))
            g = d(st.sampled_from([["V.Was"], ["v.was"], "V.Was", ["V.Was", "V.X"], ["V.X", "V.Was"]]))
            base[p + ".Fa%d" % i] = {**leaf, "fka": f}
            base[q + ".Fb%d" % i] = {**leaf, "fka": g, "type": d(st.sampled_from(["sensor", "sensor", "actuator"]))}
        elif kind == "fka_hash":
            base[p + ".Now%d" % i] = dict(leaf)
            base[q + ".Was%d" % i] = {**leaf, "fka": [p + ".Now%d" % i]}
        elif kind == "case":
            base[p + ".Sig%d" % i] = dict(leaf)
            base[p + ".SIG%d" % i] = dict(leaf)
        elif kind == "fnv":
            prs = PAIRS.get((root, cs))
            if not prs:
                continue
            x, y = d(st.sampled_from(prs))
            base[root + "." + x] = dict(leaf)
            base[root + "." + y] = dict(leaf)
        elif kind == "instance":
            b = p + ".Multi%d" % i
            base[b] = {"type": "branch", "description": "m", "instances": ["Left", "Right"]}
            base[b + ".Lf"] = {**leaf, **d(st.sampled_from([{"constUID": "0x00000007"}, {"fka": ["V.Lf"]}, {}]))}
        placed.append(kind)
    if prob(d, 0.06):
        # the first and the last of many nodes
        u = "0x%08X" % d(st.integers(1, 9))
        leaf = {"type": "sensor", "datatype": "uint8", "description": "c", "constUID": u}
        n = d(st.sampled_from([20, 60, 140, 270]))
        many = {root + ".Some%d" % i: {"type": "sensor", "datatype": "uint8", "description": "bulk"} for i in range(n)}
        base = {root: base.pop(root), root + ".Early": leaf, **base, **many, root + ".Late": {**leaf, "constUID": d(st.sampled_from([u, "0x0000000A"]))}}
        placed.append("far")
    return {"base": base, "cs": cs, "placed": placed, "pre": d(st.booleans()), "expand": not prob(d, 0.2)}


def strategy(tier):
    return strategy_()


def check(c, box):
    args = emit(box, {"base": c["base"]}) + ["-o", "out.yaml"]
    args += ["--case-sensitive"] if c["cs"] else []
    args += [] if c["expand"] else ["--no-expand"]
    if c["pre"]:
        box.write("out.yaml", "old: content\n")
    r = box.export("id", *args)
    tree = ref.build([c["base"]], c["expand"])
    want = ids.expected(tree, (), c["cs"])
    coll = ids.collisions(want)
    labels = ["abort" if coll else "unique"] + ["placed:" + p for p in c["placed"]]
    if coll:
        if r.ok:
            raise Violation("nodes with the same UID exported: %s" % (coll[:2],))
        if c["pre"]:
            if not box.exists("out.yaml") or box.read("out.yaml") != "old: content\n":
                raise Violation("aborted on a UID collision but changed the existing output")
        elif box.exists("out.yaml"):
            raise Violation("aborted on a UID collision but wrote an output")
        return Info(bool(c["placed"]), labels)
    if not r.ok:
        raise Violation("aborted although all UIDs differ: %s" % r.tail())
    with judging("id"):
        got = {k: int(v["staticUID"], 16) for k, v in box.yaml("out.yaml").items()}
        if len(set(got.values())) != len(got):
            raise Violation("duplicate UIDs in the output")
        if {k: v["staticUID"] for k, v in box.yaml("out.yaml").items()} != {k: v["staticUID"] for k, v in want.items()}:
            raise Violation("UIDs are not the documented ones")
    return Info(bool(c["placed"]), labels)
