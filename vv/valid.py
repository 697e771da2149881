"""Reference validator: which single nodes / trees are acceptable models."""
import re

from . import ref
from .gen import subtypes
from .ref import CORE, INT_RANGES, PRIMITIVES

BASE_FIELDS = {"type", "description", "comment", "delete", "deprecation", "constUID", "fka", "instantiate", "fqn"}
BRANCH_FIELDS = BASE_FIELDS | {"instances", "aggregate", "is_instance"}
LEAF_FIELDS = BASE_FIELDS | {"datatype", "arraysize", "min", "max", "unit", "allowed", "default"}


def value_ok(v, base):
    if base in INT_RANGES:
        lo, hi = INT_RANGES[base]
        return isinstance(v, int) and not isinstance(v, bool) and lo <= v <= hi
    if base in ("float", "double", "numeric"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if base == "boolean":
        return isinstance(v, bool)
    if base == "string":
        return isinstance(v, str)
    return False


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def units_table(units):
    """unit file content -> {usable unit name: allowed datatypes}"""
    out = {}
    for k, u in units.items():
        a = u.get("allowed-datatypes") or []
        if u.get("unit"):
            out[u["unit"]] = a
        out[k] = a
    return out


def in_list(v, lst):
    return any(v == x for x in lst)


def node_problems(fqn, a, structs=(), units=None):
    """Problems of one node's attributes (explicit attributes only)."""
    p = []
    t = a.get("type")
    if t not in ("branch", "attribute", "sensor", "actuator", "struct", "property"):
        return ["type %r" % (t,)]
    if not isinstance(a.get("description"), str):
        p.append("description")
    for k in ("comment", "deprecation"):
        if a.get(k) is not None and not isinstance(a[k], str):
            p.append(k)
    for k in ("delete", "instantiate"):
        if k in a and not isinstance(a[k], bool):
            p.append(k)
    u = a.get("constUID")
    if u is not None and not (isinstance(u, str) and re.fullmatch(r"0x[0-9A-Fa-f]{8}", u)):
        p.append("constUID")
    if "fka" in a:
        f = a["fka"]
        if not (isinstance(f, str) or (isinstance(f, list) and all(isinstance(x, str) for x in f))):
            p.append("fka")
    allowed_fields = {"branch": BRANCH_FIELDS, "struct": BASE_FIELDS}.get(t, LEAF_FIELDS)
    for k in a:
        if k in CORE and k not in allowed_fields:
            p.append("core attribute %s on a %s" % (k, t))
    if t == "branch":
        i = a.get("instances")
        if i is not None and not isinstance(i, (str, list)):
            p.append("instances")
        if "aggregate" in a and not isinstance(a["aggregate"], bool):
            p.append("aggregate")
        return p
    if t == "struct":
        return p
    dt = a.get("datatype")
    if not isinstance(dt, str):
        return p + ["datatype"]
    try:
        full = ref.resolve_type(dt, fqn, structs)
    except ref.Invalid:
        return p + ["datatype %s" % dt]
    arr = full.endswith("[]")
    base = full[:-2] if arr else full
    prim = base in PRIMITIVES or base == "numeric"
    n = a.get("arraysize")
    if n is not None:
        if not isinstance(n, int) or isinstance(n, bool):
            p.append("arraysize")
        elif not arr:
            p.append("arraysize on non array")
    for k in ("min", "max"):
        if a.get(k) is not None and not is_num(a[k]):
            p.append(k)
    al = a.get("allowed")
    if al is not None:
        if not isinstance(al, list):
            p.append("allowed is no list")
            al = None
        else:
            if not all(prim and value_ok(x, base) for x in al):
                p.append("allowed vs datatype")
            if a.get("min") is not None or a.get("max") is not None:
                p.append("allowed with min/max")
    d = a.get("default")
    if d is not None:
        if isinstance(d, list) != arr:
            p.append("default array-ness")
        else:
            vals = d if arr else [d]
            if not all(prim and value_ok(x, base) for x in vals):
                p.append("default vs datatype")
            if al and not all(in_list(x, al) for x in vals):
                p.append("default not in allowed")
            if arr and n and len(d) != n:
                p.append("default vs arraysize")
    un = a.get("unit")
    if un is not None:
        tab = units_table(units or {})
        if not isinstance(un, str) or un not in tab:
            p.append("unknown unit")
        elif not prim or not any(base in subtypes(x) for x in tab[un]):
            p.append("unit vs datatype")
    return p


def tree_problems(root, structs=(), units=None):
    p = []
    for fqn, n in root.walk():
        p += ["%s: %s" % (fqn, x) for x in node_problems(fqn, n.attrs, structs, units)]
        for c in n.children.values():
            ct = c.type
            if ct == "property":
                ok = n.type == "struct"
            elif ct == "struct":
                ok = n.type in ("struct", "branch")
            else:
                ok = n.type == "branch"
            if not ok:
                p.append("%s.%s: %s below %s" % (fqn, c.name, ct, n.type))
    return p


def name_problems(root):
    p = []
    for fqn, n in root.walk():
        if not re.fullmatch(r"[A-Z][A-Za-z0-9]*", n.name):
            p.append("%s: not CamelCase" % fqn)
        if n.attrs.get("datatype") == "boolean" and not n.name.startswith(("Is", "Has")):
            p.append("%s: boolean name" % fqn)
    return p


def extra_problems(root, allowed=()):
    return ["%s: %s" % (f, k) for f, n in root.walk() for k in n.attrs if k not in CORE and k not in allowed]
