"""A strict validator for the JSON schema keywords the exporter may use."""
from .runner import Violation

ANNOTATIONS = {"$schema", "title", "description", "default", "deprecated", "examples", "$comment", "readOnly", "writeOnly"}
TYPES = {
    "object": lambda v: isinstance(v, dict),
    "array": lambda v: isinstance(v, list),
    "string": lambda v: isinstance(v, str),
    "boolean": lambda v: isinstance(v, bool),
    "null": lambda v: v is None,
    "number": lambda v: isinstance(v, (int, float)) and not isinstance(v, bool),
    "integer": lambda v: isinstance(v, (int, float)) and not isinstance(v, bool) and v == int(v),
}


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    return type(a) in (int, float) and type(b) in (int, float) and a == b or type(a) is type(b) and a == b


def num(v):
    return TYPES["number"](v)


def accepts(s, v, ext=(), path=""):
    """Is v valid under s?  Raises Violation for a malformed schema."""
    if s is True or s is False:
        return s
    ok = True
    for k, x in s.items():
        if k in ANNOTATIONS or k.startswith("x-") or k in ext:
            continue
        if k == "type":
            if x not in TYPES:
                raise Violation("%s: type %r is no JSON schema type" % (path, x))
            ok &= TYPES[x](v)
        elif k in ("minimum", "maximum"):
            if not num(x):
                raise Violation("%s: %s is %r" % (path, k, x))
            ok &= not num(v) or (v >= x if k == "minimum" else v <= x)
        elif k in ("minItems", "maxItems"):
            if not isinstance(x, int) or isinstance(x, bool) or x < 0:
                raise Violation("%s: %s is %r" % (path, k, x))
            ok &= not isinstance(v, list) or (len(v) >= x if k == "minItems" else len(v) <= x)
        elif k == "enum":
            if not isinstance(x, list):
                raise Violation("%s: enum is %r" % (path, x))
            ok &= any(eq(v, e) for e in x)
        elif k == "items":
            if isinstance(v, list):
                ok &= all([accepts(x, e, ext, path + "[]") for e in v])
        elif k == "required":
            if not isinstance(x, list) or any(not isinstance(e, str) for e in x) or len(set(x)) != len(x):
                raise Violation("%s: required is %r" % (path, x))
            ok &= not isinstance(v, dict) or all(e in v for e in x)
        elif k == "properties":
            if not isinstance(x, dict):
                raise Violation("%s: properties is %r" % (path, x))
            if isinstance(v, dict):
                ok &= all([accepts(x[e], v[e], ext, path + "." + e) for e in v if e in x])
        elif k == "additionalProperties":
            if not isinstance(x, bool):
                raise Violation("%s: additionalProperties is %r" % (path, x))
            if isinstance(v, dict) and not x:
                ok &= all(e in s.get("properties", {}) for e in v)
        else:
            raise Violation("%s: unexpected keyword %r" % (path, k))
    return bool(ok)
