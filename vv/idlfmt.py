"""A strict parser for the IDL 4.2 subset the exporter may use (plus const and default members)."""
import re

from .runner import Violation

KEYWORDS = set(
    "abstract any alias attribute bitfield bitmask bitset boolean case char component connector const consumes context custom default double "
    "exception emits enum eventtype factory false finder fixed float getraises home import in inout interface local long manages map mirrorport "
    "module multiple native object octet oneway out primarykey private port porttype provides public publishes raises readonly setraises sequence "
    "short string struct supports switch true truncatable typedef typeid typename typeprefix unsigned union uses valuebase valuetype void wchar "
    "wstring int8 uint8 int16 int32 int64 uint16 uint32 uint64".split()
)
TOKEN = re.compile(r'\s+|//[^\n]*|(?P<s>"(?:[^"\\\n]|\\.)*")|(?P<q>\x27[^\x27\n]*\x27)|(?P<i>[A-Za-z_][A-Za-z0-9_]*)|(?P<n>-?[0-9][0-9.eE+-]*)|(?P<p>::|[{};<>,=()@\[\]])')
ESC = {"n": "\n", "r": "\r", "t": "\t", '"': '"', "\\": "\\", "'": "'"}


def literal(tok):
    return re.sub(r"\\(.)", lambda m: ESC.get(m.group(1), "?"), tok[1:-1])


class Scope:
    def __init__(self, kind, name, parent):
        self.kind, self.name, self.parent, self.kids = kind, name, parent, {}
        self.members, self.consts, self.literals = [], {}, []

    def path(self):
        return () if self.parent is None else self.parent.path() + (self.name,)


class Parser:
    def __init__(self, text):
        self.toks, pos = [], 0
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise Violation("IDL: illegal text %r" % text[pos : pos + 40])
            if m.lastgroup:
                self.toks.append((m.lastgroup, m.group()))
            pos = m.end()
        self.i = 0
        self.root = Scope("module", "", None)
        while self.i < len(self.toks):
            self.definition(self.root)

    def peek(self):
        return self.toks[self.i][1] if self.i < len(self.toks) else "<end>"

    def next(self):
        t = self.toks[self.i] if self.i < len(self.toks) else ("e", "<end>")
        self.i += 1
        return t

    def expect(self, s):
        k, t = self.next()
        if t != s:
            raise Violation("IDL: %r where %r is expected (after %s)" % (t, s, " ".join(x for _, x in self.toks[max(0, self.i - 8) : self.i - 1])))

    def ident(self):
        k, t = self.next()
        if k != "i":
            raise Violation("IDL: %r is no identifier (after %s)" % (t, " ".join(x for _, x in self.toks[max(0, self.i - 8) : self.i - 1])))
        if t[0] == "_":
            return t[1:]
        if t.lower() in KEYWORDS:
            raise Violation("IDL: keyword %r used as identifier" % t)
        return t

    def declare(self, scope, kind):
        name = self.ident()
        old = scope.kids.get(name)
        if old is not None:
            if kind == "module" and old.kind == "module":
                return old
            raise Violation("IDL: %s redefined" % "::".join(scope.path() + (name,)))
        s = scope.kids[name] = Scope(kind, name, scope)
        return s

    def definition(self, scope):
        k, t = self.next()
        if t == "module":
            s = self.declare(scope, "module")
            self.expect("{")
            while self.peek() != "}":
                self.definition(s)
            self.expect("}")
        elif t == "struct":
            s = self.declare(scope, "struct")
            s.done = False
            self.expect("{")
            while self.peek() != "}":
                self.member(s)
            self.expect("}")
            s.done = True
        elif t == "enum":
            s = self.declare(scope, "enum")
            self.expect("{")
            while True:
                s.literals.append(self.ident())
                if self.peek() != ",":
                    break
                self.next()
            self.expect("}")
            if len(set(s.literals)) != len(s.literals):
                raise Violation("IDL: enum %s has equal literals" % s.name)
        else:
            raise Violation("IDL: unexpected %r" % t)
        self.expect(";")

    def typespec(self, scope):
        t = self.peek()
        if t in ("octet", "boolean", "float", "double", "string", "short", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"):
            self.next()
            return t
        if t == "unsigned":
            self.next()
            u = self.typespec(scope)
            if u not in ("short", "long", "long long"):
                raise Violation("IDL: unsigned %s" % (u,))
            return "unsigned " + u
        if t == "long":
            self.next()
            if self.peek() in ("long", "double"):
                return "long " + self.next()[1]
            return "long"
        if t == "sequence":
            self.next()
            self.expect("<")
            r = ("seq", self.typespec(scope))
            self.expect(">")
            return r
        if t == "::":
            raise Violation("IDL: global names are not expected")
        parts = [self.ident()]
        while self.peek() == "::":
            self.next()
            parts.append(self.ident())
        s = scope
        while s is not None and parts[0] not in s.kids:
            s = s.parent
        for p in parts:
            s = s.kids.get(p) if s is not None else None
        if s is None or s.kind == "module":
            raise Violation("IDL: %s is not defined before its use in %s" % ("::".join(parts), "::".join(scope.path())))
        if s.kind == "struct" and not s.done:
            raise Violation("IDL: struct %s contains itself" % "::".join(s.path()))
        return s

    def member(self, s):
        rng = default = None
        if self.peek() == "const":
            self.next()
            self.expect("string")
            name = self.ident()
            self.expect("=")
            k, t = self.next()
            if k != "s":
                raise Violation("IDL: value %r of const %s" % (t, name))
            s.consts[name] = literal(t)
            self.expect(";")
            return
        if self.peek() == "@":
            self.next()
            for x in ("range", "(", "min", "="):
                self.expect(x)
            lo = self.next()[1]
            for x in (",", "max", "="):
                self.expect(x)
            hi = self.next()[1]
            self.expect(")")
            rng = (lo, hi)
        t = self.typespec(s)
        name = self.ident()
        if self.peek() == "default":
            self.next()
            default = []
            while self.peek() != ";":
                if self.peek() == "<end>":
                    raise Violation("IDL: unfinished member")
                default.append(self.next())
        self.expect(";")
        if name in [m[0] for m in s.members]:
            raise Violation("IDL: member %s redefined" % name)
        s.members.append((name, t, rng, default))
