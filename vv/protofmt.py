"""Strict parser of the subset of proto3 that describes plain messages."""
import re

TOK = re.compile(r'\s+|//[^\n]*|("[^"\n]*")|([A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*)|(\d+)|([{}=;])')
SCALARS = {"double", "float", "int32", "int64", "uint32", "uint64", "bool", "string"}
KEY = {"message", "import", "package", "syntax", "enum", "option", "service"}


class ProtoError(Exception):
    pass


class File:
    def __init__(self):
        self.package, self.imports, self.messages = "", [], {}


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise ProtoError("unexpected text %r" % text[pos : pos + 40])
        pos = m.end()
        if m.group(1) or m.group(2) or m.group(3) or m.group(4):
            out.append(m.group(0))
    return out


def parse(text):
    """-> File; messages: ordered {name: [(label, type, field, number)]}"""
    t = tokens(text)
    if t[:4] != ["syntax", "=", '"proto3"', ";"]:
        raise ProtoError("does not start with the proto3 syntax statement")
    i = 4
    f = File()

    def need(x):
        nonlocal i
        if i >= len(t) or t[i] != x:
            raise ProtoError("expected %s near %s" % (x, t[i - 3 : i + 3]))
        i += 1

    def ident(dots=False):
        nonlocal i
        if i >= len(t) or not re.match(r"[A-Za-z_]", t[i]) or ("." in t[i] and not dots):
            raise ProtoError("expected a name near %s" % t[i - 3 : i + 3])
        i += 1
        return t[i - 1]

    while i < len(t):
        k = t[i]
        i += 1
        if k == "package":
            if f.package:
                raise ProtoError("package twice")
            f.package = ident(True)
            need(";")
        elif k == "import":
            if not t[i].startswith('"'):
                raise ProtoError("import without file")
            p = t[i].strip('"')
            if p in f.imports:
                raise ProtoError("%s is imported twice" % p)
            f.imports.append(p)
            i += 1
            need(";")
        elif k == "message":
            n = ident()
            if n in f.messages:
                raise ProtoError("message %s is defined twice" % n)
            f.messages[n] = fs = []
            need("{")
            while i < len(t) and t[i] != "}":
                label = ""
                if t[i] in ("optional", "repeated") and re.match(r"[A-Za-z_]", t[i + 2]):
                    label = t[i]
                    i += 1
                ty = ident(True)
                fn = ident()
                need("=")
                if not t[i].isdigit():
                    raise ProtoError("field number of %s.%s" % (n, fn))
                num = int(t[i])
                i += 1
                need(";")
                if not 1 <= num < 2**29 or 19000 <= num < 20000:
                    raise ProtoError("field number %d of %s.%s is not allowed" % (num, n, fn))
                if num in [x[3] for x in fs]:
                    raise ProtoError("field number %d twice in %s" % (num, n))
                if fn in [x[2] for x in fs]:
                    raise ProtoError("field %s twice in %s" % (fn, n))
                fs.append((label, ty, fn, num))
            need("}")
        else:
            raise ProtoError("unexpected %s" % k)
    return f


def check_all(files):
    """files: {path: File}; every reference resolves through the imports."""
    defined = {}
    for p, f in files.items():
        for m in f.messages:
            full = (f.package + "." if f.package else "") + m
            if full in defined:
                raise ProtoError("%s is defined in %s and %s" % (full, defined[full], p))
            defined[full] = p
    for p, f in files.items():
        for imp in f.imports:
            if imp not in files:
                raise ProtoError("%s imports %s which does not exist" % (p, imp))
            if imp == p:
                raise ProtoError("%s imports itself" % p)
        for m, fs in f.messages.items():
            for label, ty, fn, num in fs:
                if ty in SCALARS:
                    continue
                scope = (f.package + "." + m if f.package else m).split(".")
                hit = None
                for k in range(len(scope), -1, -1):
                    c = ".".join(scope[:k] + [ty])
                    if c in defined:
                        hit = c
                        break
                if hit is None:
                    raise ProtoError("%s: type %s of %s.%s is not defined" % (p, ty, m, fn))
                if defined[hit] != p and defined[hit] not in f.imports:
                    raise ProtoError("%s: %s (%s.%s) is not imported" % (p, ty, m, fn))


def cyclic(files):
    state = {}

    def go(p):
        if state.get(p) == 1:
            return True
        if state.get(p) == 2 or p not in files:
            return False
        state[p] = 1
        r = any(go(q) for q in files[p].imports)
        state[p] = 2
        return r

    return any(go(p) for p in files)
