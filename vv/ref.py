"""Reference model: an independent, explicit-attributes-only implementation of
what loading a signal model means (layers -> overlay merge -> instance
expansion -> deletion -> export view)."""
import copy
import re
import uuid as _uuid

INT_RANGES = {}
for _b in (8, 16, 32, 64):
    INT_RANGES["uint%d" % _b] = (0, 2**_b - 1)
    INT_RANGES["int%d" % _b] = (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1)
PRIMITIVES = sorted(INT_RANGES) + ["boolean", "float", "double", "string"]

CORE = {
    "type", "description", "comment", "delete", "deprecation", "constUID", "fka", "instantiate",
    "instances", "aggregate", "is_instance", "fqn",
    "datatype", "arraysize", "min", "max", "unit", "allowed", "default",
}
NOT_EXPORTED = {"delete", "instantiate", "arraysize", "aggregate", "is_instance", "fqn"}
LEAF_TYPES = ("attribute", "sensor", "actuator", "property")

_DROP = object()


class Invalid(Exception):
    pass


def merge_values(old, new):
    """`new` wins; maps are merged key by key."""
    if isinstance(old, dict) and isinstance(new, dict):
        out = dict(old)
        for k, v in new.items():
            out[k] = merge_values(out[k], v) if k in out else copy.deepcopy(v)
        return out
    return copy.deepcopy(new)


def merge_layers(layers):
    out = {}
    for layer in layers:
        out = merge_values(out, layer)
    return out


class N:
    __slots__ = ("name", "attrs", "children", "inst")

    def __init__(self, name, attrs=None):
        self.name, self.attrs, self.children, self.inst = name, dict(attrs or {}), {}, False

    def clone(self):
        c = N(self.name, copy.deepcopy(self.attrs))
        c.inst = self.inst
        c.children = {k: v.clone() for k, v in self.children.items()}
        return c

    def walk(self, prefix=""):
        fqn = prefix + self.name
        yield fqn, self
        for c in self.children.values():
            yield from c.walk(fqn + ".")

    @property
    def type(self):
        return self.attrs.get("type")


def to_tree(flat):
    roots = [k for k in flat if "." not in k]
    if len(roots) != 1:
        raise Invalid("roots: %s" % roots)
    root = N(roots[0], flat[roots[0]])
    for fqn, attrs in flat.items():
        parts = fqn.split(".")
        if parts[0] != root.name:
            raise Invalid("orphan %s" % fqn)
        n = root
        for i, p in enumerate(parts[1:], 1):
            if p not in n.children:
                n.children[p] = N(p, {"type": "branch"})
            n = n.children[p]
        n.attrs = dict(attrs)
    return root


RANGE = re.compile(r"^(.*)\[(\d+),(\d+)\](.*)$")


def names_of(entry):
    m = RANGE.match(str(entry))
    if not m:
        return [str(entry)]
    lo, hi = int(m.group(2)), int(m.group(3))
    if lo > hi:
        raise Invalid("range %s" % entry)
    return ["%s%d%s" % (m.group(1), i, m.group(4)) for i in range(lo, hi + 1)]


def instance_levels(instances):
    """Normalises an `instances` value to a list of levels (lists of names).

    A plain list of names is one level; a range or a nested list is a level of
    its own, levels nest in the order given."""
    if instances in (None, [], ""):
        return []
    if isinstance(instances, str):
        return [names_of(instances)]
    if all(isinstance(i, str) and not RANGE.match(i) for i in instances):
        return [list(instances)]
    levels = []
    for i in instances:
        if isinstance(i, list):
            lv = []
            for x in i:
                lv += names_of(x)
            levels.append(lv)
        elif RANGE.match(str(i)):
            levels.append(names_of(i))
        else:
            raise Invalid("mixed instances: outside the modelled domain")
    return levels


def overlay_node(common, specific):
    """Specific data has precedence, everything it does not say is inherited."""
    attrs = merge_values(common.attrs, specific.attrs)
    out = N(common.name, attrs)
    out.inst = common.inst
    out.children = dict(common.children)
    for k, c in specific.children.items():
        out.children[k] = overlay_node(out.children[k], c) if k in out.children else c
    return out


def instance_forest(instances):
    """The tree of instance names as nested {name: {...}}.

    A nested list or a range opens a new level below all instances of the level
    above, a plain name adds to the current level without opening a new one."""
    top = {}
    if instances in (None, [], ""):
        return top
    if isinstance(instances, str):
        instances = [instances]
    roots = [top]
    for i in instances:
        names = []
        for x in i if isinstance(i, list) else [i]:
            names += names_of(str(x))
        new = []
        for r in roots:
            for n in names:
                if n in r:
                    raise Invalid("duplicate instance: outside the modelled domain")
                r[n] = {}
                new.append(r[n])
        if isinstance(i, list) or names != [str(i)]:
            roots = new
    return top


def expand(node):
    forest = instance_forest(node.attrs.get("instances")) if node.type == "branch" else {}
    if node.type == "branch":
        node.attrs.pop("instances", None)
    if forest:
        stay = {k: c for k, c in node.children.items() if c.attrs.get("instantiate", True) is False}
        rest = {k: c for k, c in node.children.items() if k not in stay}
        specific = {k: c for k, c in rest.items() if k in forest}
        common = {k: c for k, c in rest.items() if k not in forest}
        tmpl = {k: v for k, v in node.attrs.items()}

        def make(name, below):
            n = N(name, copy.deepcopy(tmpl))
            n.inst = True
            for x, y in below.items():
                n.children[x] = make(x, y)
            if not below:
                for k, c in common.items():
                    n.children[k] = c.clone()
            return n

        node.children = dict(stay)
        for x, y in forest.items():
            c = make(x, y)
            if x in specific:
                c = overlay_node(c, specific[x])
            node.children[x] = c
    for c in list(node.children.values()):
        expand(c)


def prune(node):
    for k, c in list(node.children.items()):
        if c.attrs.get("delete") is True:
            del node.children[k]
        else:
            prune(c)


def struct_names(types_root):
    return [f for f, n in types_root.walk() if n.type == "struct"] if types_root else []


def resolve_type(dt, fqn, structs):
    """Full name of a possibly shortened datatype used by node `fqn`."""
    arr = dt.endswith("[]")
    base = dt[:-2] if arr else dt
    if base in PRIMITIVES or base == "numeric" or base in structs:
        return dt
    hits = []
    for t in structs:
        ns, short = t.rsplit(".", 1)
        if short == base and fqn.startswith(ns + ".") and not fqn.startswith(t + "."):
            hits.append(t)
    if hits:
        # innermost enclosing namespace wins
        return max(hits, key=lambda t: t.count(".")) + ("[]" if arr else "")
    raise Invalid("datatype %s at %s: %s" % (dt, fqn, hits))


def build(layers, expand_instances=True, delete=True):
    root = to_tree(merge_layers(layers))
    if expand_instances:
        expand(root)
    if delete:
        prune(root)
    return root


def exported(attrs, fqn, structs=(), ext="all", keep_null_ext=()):
    """The attribute view documented for exports.

    ext: 'all' or the tuple of whitelisted extended attributes."""
    out = {}
    for k, v in attrs.items():
        if k in NOT_EXPORTED:
            continue
        if k not in CORE and ext != "all" and k not in ext:
            continue
        if (v is None or v == []) and k not in keep_null_ext:
            continue
        if k == "datatype":
            v = resolve_type(v, fqn, structs)
        if k == "instances" and isinstance(v, str):
            v = [v]
        if k == "fka" and isinstance(v, str):
            v = [v]
        out[k] = v
    return out


NS = _uuid.uuid5(_uuid.NAMESPACE_OID, "vehicle_signal_specification")


def uuid_of(fqn):
    return _uuid.uuid5(NS, fqn).hex


def flat(root, structs=(), ext="all", uuid=False, keep_null_ext=()):
    out = {}
    for fqn, n in root.walk():
        d = exported(n.attrs, fqn, structs, ext, keep_null_ext)
        if uuid:
            d["uuid"] = uuid_of(fqn)
        out[fqn] = d
    return out


def unnest(data, prefix=""):
    """JSON export -> flat dict."""
    out = {}
    for name, d in data.items():
        d = dict(d)
        ch = d.pop("children", None)
        out[prefix + name] = d
        if ch is not None:
            if not isinstance(ch, dict) or not ch:
                raise ValueError("empty or malformed children of %s%s" % (prefix, name))
            out.update(unnest(ch, prefix + name + "."))
    return out


def strict_eq(a, b):
    """Equality that tells 1, 1.0 and True apart."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    return a == b


def diff_flat(want, got, limit=4):
    """Human readable difference of two flat dicts or None."""
    msgs = []
    for k in want:
        if k not in got:
            msgs.append("missing node %s" % k)
        elif not strict_eq(want[k], got[k]):
            for a in sorted(set(want[k]) | set(got[k])):
                if a not in got[k]:
                    msgs.append("%s: attribute %s=%r is missing" % (k, a, want[k][a]))
                elif a not in want[k]:
                    msgs.append("%s: unexpected attribute %s=%r" % (k, a, got[k][a]))
                elif not strict_eq(want[k][a], got[k][a]):
                    msgs.append("%s: %s is %r, expected %r" % (k, a, got[k][a], want[k][a]))
    for k in got:
        if k not in want:
            msgs.append("unexpected node %s" % k)
    if not msgs:
        return None
    return "; ".join(msgs[:limit]) + ("; ... %d differences" % len(msgs) if len(msgs) > limit else "")
