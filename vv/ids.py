"""Independent model of the documented static UIDs."""
from . import ref


def fnv1_32(data):
    h = 0x811C9DC5
    for b in data:
        h = ((h * 0x01000193) % (1 << 32)) ^ b
    return h


def ident(name, a, fqn, structs=(), case_sensitive=False):
    def s(k):
        v = a.get(k)
        return "" if v is None or v == [] else str(v)

    dt = a.get("datatype")
    dt = ref.resolve_type(dt, fqn, structs) if dt else ""
    text = "%s: unit: %s, datatype: %s, type: %sallowed: %smin: %smax: %s" % (name, s("unit"), dt, a["type"], s("allowed"), s("min"), s("max"))
    raw = text.encode("utf-8")
    if not case_sensitive:
        raw = bytes(b + 32 if 65 <= b <= 90 else b for b in raw)
    return raw


def hash_name(a, fqn):
    f = a.get("fka")
    if isinstance(f, str):
        f = [f]
    return f[0] if f else fqn


def uid(a, fqn, structs=(), case_sensitive=False):
    if a.get("constUID") is not None:
        return a["constUID"]
    return "0x%08X" % fnv1_32(ident(hash_name(a, fqn), a, fqn, structs, case_sensitive))


def expected(root, structs=(), case_sensitive=False):
    """The documented id export."""
    out = {}
    for fqn, n in root.walk():
        a = n.attrs
        d = {"staticUID": uid(a, fqn, structs, case_sensitive), "description": a["description"], "type": a["type"]}
        if a.get("unit"):
            d["unit"] = a["unit"]
        if "datatype" in a:
            d["datatype"] = ref.resolve_type(a["datatype"], fqn, structs)
        if a.get("allowed"):
            d["allowed"] = a["allowed"]
        for k in ("min", "max"):
            if a.get(k) is not None:
                d[k] = a[k]
        if a.get("fka"):
            d["fka"] = [a["fka"]] if isinstance(a["fka"], str) else a["fka"]
        if a.get("deprecation"):
            d["deprecation"] = a["deprecation"]
        out[fqn] = d
    return out


def collisions(exp):
    seen, out = {}, []
    for f, d in exp.items():
        k = int(d["staticUID"], 16)
        if k in seen:
            out.append((seen[k], f, d["staticUID"]))
        seen[k] = f
    return out
