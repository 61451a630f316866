"""An independent reference implementation of the circom language (parser, and evaluation over concrete field values).

Two modes:
  witness(prog, inputs)  executes the program as a witness generator: component bodies run when their inputs are complete;
  check(prog, values)    given a value for every signal, tells which constraints (=== and <==) hold.
Written from the documentation in /repo/mkdocs; shares no code with /repo.
"""
import re
from .field import F, Undefined

TOK = re.compile(r"""
 (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
|(?P<num>0x[0-9a-fA-F]+|\d+)
|(?P<id>[$_]*[a-zA-Z][a-zA-Z0-9_$]*|_)
|(?P<str>"[^"]*")
|(?P<op><==|==>|===|<--|-->|\*\*=|<<=|>>=|\*\*|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|\\=|%=|&=|\|=|\^=|[-+*/\\%&|^~!<>=?:;,.(){}\[\]])
""", re.X | re.S)


class Reject(Exception):
    """The program or run is not valid."""


class ParseError(Reject):
    pass


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ParseError("lex at %d: %r" % (i, s[i:i + 20]))
        i = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    out.append(("eof", ""))
    return out


BINPREC = [["||"], ["&&"], ["==", "!=", "<", ">", "<=", ">="], ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "\\", "%"], ["**"]]
LEVEL = {o: i for i, l in enumerate(BINPREC) for o in l}
KEYWORDS = {"signal", "input", "output", "public", "template", "component", "parallel", "custom", "var", "function", "return", "if", "else", "for", "while", "do", "log", "assert", "include", "pragma", "bus", "extern_c"}


class P:
    def __init__(self, src):
        self.t = lex(src)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def kind(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def eat(self, s):
        if self.peek() == s and self.kind() != "str":
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise ParseError("expected %r, found %r" % (s, self.peek()))

    def ident(self):
        if self.kind() != "id" or self.peek() in KEYWORDS or self.peek() == "_":
            raise ParseError("identifier expected, found %r" % self.peek())
        return self.next()

    # expressions
    def expr(self):
        if self.eat("parallel"):
            return ("par", self.expr())
        c = self.binary(0)
        if self.eat("?"):
            a = self.binary(0)
            self.expect(":")
            return ("tern", c, a, self.binary(0))
        return c

    def binary(self, lvl):
        if lvl == len(BINPREC):
            return self.unary()
        l = self.binary(lvl + 1)
        while self.kind() == "op" and self.peek() in BINPREC[lvl]:
            o = self.next()
            l = ("bin", o, l, self.binary(lvl + 1))
        return l

    def unary(self):
        if self.kind() == "op" and self.peek() in ("-", "!", "~"):
            o = self.next()
            return ("un", o, self.primary())
        return self.primary()

    def elist(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            out.append(self.expr())
            if self.eat(end):
                return out
            self.expect(",")

    def primary(self):
        k = self.kind()
        if k == "num":
            return ("num", int(self.next(), 0) if self.peek().startswith("0x") else int(self.next()))
        if self.eat("("):
            l = self.elist(")")
            if not l:
                raise ParseError("empty parentheses")
            return l[0] if len(l) == 1 else ("tuple", l)
        if self.eat("["):
            return ("arr", self.elist("]"))
        if k == "id" and self.peek() == "_":
            self.next()
            return ("var", "_", [])
        name = self.ident()
        if self.eat("("):
            params = self.elist(")")
            if self.eat("("):
                names, args = None, []
                if self.kind() == "id" and self.peek(1) in ("<==", "<--"):
                    names = []
                    while True:
                        names.append((self.ident(), self.next()))
                        args.append(self.expr())
                        if self.eat(")"):
                            break
                        self.expect(",")
                else:
                    args = self.elist(")")
                return ("anon", name, params, args, names)
            return ("call", name, params)
        return ("var", name, self.access())

    def access(self):
        acc = []
        while True:
            if self.eat("["):
                acc.append(("i", self.expr()))
                self.expect("]")
            elif self.eat("."):
                acc.append(("f", self.ident()))
            else:
                return acc

    # statements
    def block(self):
        self.expect("{")
        out = []
        while not self.eat("}"):
            out.append(self.stmt())
        return ("block", out)

    def tags(self):
        t = []
        if self.eat("{"):
            while True:
                t.append(self.ident())
                if self.eat("}"):
                    break
                self.expect(",")
        return t

    def decl(self):
        """at a declaration keyword; without the final semicolon"""
        bus = None
        if self.eat("var"):
            kind, tags = "var", []
        elif self.eat("component"):
            kind, tags = "component", []
        else:
            kind, tags = None, []
            if self.eat("input"):
                kind = "input"
            elif self.eat("output"):
                kind = "output"
            if self.eat("signal"):
                if kind is None and self.peek() in ("input", "output"):
                    kind = self.next()
                kind = kind or "inter"
            else:
                nm = self.ident()
                params = self.elist(")") if self.eat("(") else []
                bus = (nm, params)
                if kind is None and self.peek() in ("input", "output"):
                    kind = self.next()
                kind = kind or "inter"
            tags = self.tags()
        out = []
        if self.eat("("):
            syms = []
            while True:
                n = self.ident()
                syms.append(n)
                out.append(("decl", kind, n, self.dims(), tags, bus))
                if self.eat(")"):
                    break
                self.expect(",")
            if self.peek() in ("=", "<==", "<--"):
                o = self.next()
                out.append(("sub", ("tuple", [("var", n, []) for n in syms]), o, self.expr()))
            return ("seq", out)
        while True:
            n = self.ident()
            dims = self.dims()
            out.append(("decl", kind, n, dims, tags, bus))
            if self.peek() in ("=", "<==", "<--") and self.kind() == "op":
                o = self.next()
                out.append(("sub", ("var", n, []), o, self.expr()))
            if not self.eat(","):
                return ("seq", out)

    def dims(self):
        d = []
        while self.eat("["):
            d.append(self.expr())
            self.expect("]")
        return d

    def is_decl(self):
        if self.peek() in ("var", "component", "signal", "input", "output") and self.kind() == "id":
            return True
        if self.kind() == "id" and self.peek() not in KEYWORDS:
            # Bus declaration: Id name | Id(..) name | Id input ...
            if self.kind(1) == "id":
                return True
            if self.peek(1) == "(":
                d, j = 0, self.i + 1
                while True:
                    if self.t[j][0] == "eof":
                        return False
                    if self.t[j][1] == "(":
                        d += 1
                    if self.t[j][1] == ")":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                return self.t[j + 1][0] == "id" or self.t[j + 1][1] == "{"
        return False

    def simple(self):
        """substitution, without the semicolon"""
        l = self.expr()
        o = self.peek()
        if o in ("=", "<--", "<=="):
            self.next()
            return ("sub", l, o, self.expr())
        if o == "-->":
            self.next()
            return ("sub", self.expr(), "<--", l)
        if o == "==>":
            self.next()
            return ("sub", self.expr(), "<==", l)
        if o in ("++", "--"):
            self.next()
            return ("opsub", l, o[0], ("num", 1))
        if o == "===":
            self.next()
            return ("ceq", l, self.expr())
        if len(o) >= 2 and o[-1] == "=" and o[:-1] in LEVEL and o not in LEVEL:
            self.next()
            return ("opsub", l, o[:-1], self.expr())
        if l[0] == "anon":
            return ("anonstmt", l)
        raise ParseError("statement expected near %r" % o)

    def stmt(self):
        if self.peek() == "{":
            return self.block()
        if self.kind() == "id":
            k = self.peek()
            if k == "if":
                self.next()
                self.expect("(")
                c = self.expr()
                self.expect(")")
                a = self.stmt()
                b = self.stmt() if self.eat("else") else None
                return ("if", c, a, b)
            if k == "while":
                self.next()
                self.expect("(")
                c = self.expr()
                self.expect(")")
                return ("while", c, self.stmt())
            if k == "for":
                self.next()
                self.expect("(")
                init = self.decl() if self.is_decl() else self.simple()
                self.expect(";")
                c = self.expr()
                self.expect(";")
                step = self.simple()
                self.expect(")")
                return ("block", [init, ("while", c, ("block", [self.stmt(), step]))])
            if k == "return":
                self.next()
                e = self.expr()
                self.expect(";")
                return ("ret", e)
            if k == "log":
                self.next()
                self.expect("(")
                args = []
                if not self.eat(")"):
                    while True:
                        if self.kind() == "str":
                            args.append(("str", self.next()[1:-1]))
                        else:
                            args.append(self.expr())
                        if self.eat(")"):
                            break
                        self.expect(",")
                self.expect(";")
                return ("log", args)
            if k == "assert":
                self.next()
                self.expect("(")
                e = self.expr()
                self.expect(")")
                self.expect(";")
                return ("assert", e)
            if self.is_decl():
                d = self.decl()
                self.expect(";")
                return d
        s = self.simple()
        self.expect(";")
        return s

    def program(self):
        pr = Program()
        while True:
            if self.eat("pragma"):
                while not self.eat(";"):
                    self.next()
            elif self.eat("include"):
                pr.includes.append(self.next()[1:-1])
                self.expect(";")
            elif self.eat("function"):
                n = self.ident()
                self.expect("(")
                args = self.names()
                pr.functions[n] = (args, self.block())
            elif self.eat("template"):
                flags = set()
                while self.peek() in ("custom", "parallel", "extern_c"):
                    flags.add(self.next())
                n = self.ident()
                args = self.names() if self.eat("(") else []
                pr.templates[n] = (args, self.block(), flags)
            elif self.eat("bus"):
                n = self.ident()
                args = self.names() if self.eat("(") else []
                pr.buses[n] = (args, self.block())
            elif self.eat("component"):
                self.expect("main")
                if self.eat("{"):
                    self.expect("public")
                    self.expect("[")
                    while True:
                        pr.public.append(self.ident())
                        if self.eat("]"):
                            break
                        self.expect(",")
                    self.expect("}")
                self.expect("=")
                pr.main = self.expr()
                self.expect(";")
            elif self.kind() == "eof":
                return pr
            else:
                raise ParseError("definition expected near %r" % self.peek())

    def names(self):
        out = []
        if self.eat(")"):
            return out
        while True:
            out.append(self.ident())
            if self.eat(")"):
                return out
            self.expect(",")


class Program:
    def __init__(self):
        self.functions, self.templates, self.buses, self.includes, self.public, self.main = {}, {}, {}, [], [], None


def parse(src):
    return P(src).program()


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Fail(Exception):
    """a run-time assertion or constraint fails"""


def deep(v):
    return [deep(x) for x in v] if isinstance(v, list) else v


def zeros(shape):
    if not shape:
        return 0
    return [zeros(shape[1:]) for _ in range(shape[0])]


def idx_all(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in idx_all(shape[1:]):
            yield (i,) + r


def sfx(ix):
    return "".join("[%d]" % i for i in ix)


class Sig:
    """a declared signal (bus is None) or bus"""
    __slots__ = ("kind", "full", "shape", "bus", "tags")

    def __init__(self, kind, full, shape, bus, tags):
        self.kind, self.full, self.shape, self.bus, self.tags = kind, full, shape, bus, tags


class CompArr:
    """components declared under one name: index tuple -> Inst"""

    def __init__(self, shape):
        self.shape, self.at = shape, {}


class Inst:
    pass


class Scope:
    def __init__(self, parent=None):
        self.d, self.parent = {}, parent

    def find(self, n):
        s = self
        while s is not None:
            if n in s.d:
                return s.d
            s = s.parent
        raise Reject("undeclared " + n)


def rectangular(v):
    """the rows of an array literal are completed with zeros up to the longest one"""
    def dims(x):
        if not isinstance(x, list):
            return ()
        inner = [dims(y) for y in x]
        return (len(x),) + tuple(max(d) for d in zip(*inner))

    def pad(x, d):
        if not d or not (isinstance(x, list) or x == 0):
            return x
        x = x if isinstance(x, list) else []
        return [pad(x[i] if i < len(x) else 0, d[1:]) for i in range(d[0])]

    d = dims(v)
    return pad(v, d) if len(d) > 1 else v


class Machine:
    STEP_LIMIT = 2_000_000

    def __init__(self, prog, p, mode, values=None):
        self.pr, self.f, self.p, self.mode = prog, F(p), p, mode
        self.values = values if values is not None else {}
        self.constraints = []      # check mode: booleans; witness mode: failures raise
        self.logs = []
        self.order = []            # signals in declaration order: (component prefix, Sig)
        self.insts = []
        self.dry_cache = {}
        self.steps = 0
        self.anon = 0
        self.sanity = 2            # witness mode: 0 does not check ===, 2 checks the inputs of the subcomponents

    # ---- values
    def truth(self, v):
        return v % self.p != 0

    def ev(self, e, sc, me):
        k = e[0]
        if k == "num":
            return e[1] % self.p
        if k == "var":
            return self.load(e, sc, me)
        if k == "bin":
            l = self.ev(e[2], sc, me)
            r = self.ev(e[3], sc, me)
            return self.f.op(e[1], l, r)
        if k == "un":
            return self.f.un(e[1], self.ev(e[2], sc, me))
        if k == "tern":
            return self.ev(e[2] if self.truth(self.ev(e[1], sc, me)) else e[3], sc, me)
        if k == "arr":
            return rectangular([self.ev(x, sc, me) for x in e[1]])
        if k == "call":
            return self.call(e[1], [self.ev(x, sc, me) for x in e[2]])
        if k == "par":
            return self.ev(e[1], sc, me)
        if k == "anon":
            outs = self.anonymous(e, sc, me)
            if len(outs) != 1:
                raise Reject("anonymous component with %d outputs used as a value" % len(outs))
            return outs[0]
        raise Reject("expression " + k)

    def call(self, name, args):
        if name not in self.pr.functions:
            raise Reject("no function " + name)
        params, body = self.pr.functions[name]
        sc = Scope()
        for n, v in zip(params, args):
            sc.d[n] = ["v", deep(v)]
        try:
            self.st(body, sc, None)
        except Return as r:
            return r.v
        raise Reject("no return")

    def index(self, e, sc, me):
        v = self.ev(e, sc, me)
        return v

    def load(self, e, sc, me):
        _, name, acc = e
        slot = sc.find(name)[name]
        if slot[0] == "v":
            v = slot[1]
            for a in acc:
                if a[0] != "i" or not isinstance(v, list):
                    raise Reject("bad access")
                i = self.index(a[1], sc, me)
                if i >= len(v):
                    raise Reject("index out of bounds")
                v = v[i]
            return deep(v)
        sig, ix, fields = self.locate(slot, acc, sc, me)
        if isinstance(sig, tuple):
            return self.tagvalue(sig)
        return self.read(sig, ix)

    def tagvalue(self, s):
        raise Reject("tag value")

    def locate(self, slot, acc, sc, me):
        """resolves a signal/bus/component access: (Sig-like, indexes, None)"""
        acc = list(acc)
        if slot[0] == "c":
            ca = slot[1]
            ix = []
            while acc and acc[0][0] == "i" and len(ix) < len(ca.shape):
                ix.append(self.index(acc.pop(0)[1], sc, me))
            if tuple(ix) not in ca.at:
                raise Reject("component not created")
            inst = ca.at[tuple(ix)]
            if not acc:
                raise Reject("component used as value")
            f = acc.pop(0)[1]
            if f not in inst.ports:
                raise Reject("no such port")
            sig = inst.ports[f]
        else:
            sig = slot[1]
        return self.walk(sig, acc, sc, me)

    def walk(self, sig, acc, sc, me):
        ix = []
        while acc:
            a = acc.pop(0)
            if a[0] == "i":
                i = self.index(a[1], sc, me)
                if len(ix) >= len(sig.shape) or i >= sig.shape[len(ix)]:
                    raise Reject("index out of bounds")
                ix.append(i)
            else:
                if sig.bus is None or len(ix) != len(sig.shape):
                    raise Reject("bad field access")
                fields = self.busfields(sig.bus)
                if a[1] not in fields:
                    raise Reject("no field")
                sh, b = fields[a[1]]
                sig = Sig(sig.kind, sig.full + sfx(ix) + "." + a[1], sh, b, [])
                ix = []
        return sig, ix, None

    def busfields(self, bus):
        """bus: (name, params) -> {field: (shape, bus)} in order"""
        name, params = bus
        key = ("bus", name, repr(params))
        if key in self.dry_cache:
            return self.dry_cache[key]
        args, body = self.pr.buses[name]
        sc = Scope()
        for n, v in zip(args, params):
            sc.d[n] = ["v", deep(v)]
        out = {}
        self._bus = out
        self.busbody(body, sc, out)
        self.dry_cache[key] = out
        return out

    def busbody(self, st, sc, out):
        if st[0] in ("block", "seq"):
            s2 = Scope(sc) if st[0] == "block" else sc
            for x in st[1]:
                self.busbody(x, s2, out)
        elif st[0] == "decl" and st[1] != "var":
            shape = [self.ev(d, sc, None) for d in st[3]]
            b = None
            if st[5]:
                b = (st[5][0], [self.ev(x, sc, None) for x in st[5][1]])
            out[st[2]] = (shape, b)
        elif st[0] == "if":
            if self.truth(self.ev(st[1], sc, None)):
                self.busbody(st[2], sc, out)
            elif st[3]:
                self.busbody(st[3], sc, out)
        elif st[0] == "while":
            while self.truth(self.ev(st[1], sc, None)):
                self.busbody(st[2], sc, out)
        else:
            self.st(st, sc, None)

    def leaves(self, full, shape, bus):
        """full names of the scalar signals of a signal or bus"""
        for ix in idx_all(shape):
            n = full + sfx(ix)
            if bus is None:
                yield n
            else:
                for f, (sh, b) in self.busfields(bus).items():
                    yield from self.leaves(n + "." + f, sh, b)

    def read(self, sig, ix):
        rest = sig.shape[len(ix):]
        base = sig.full + sfx(ix)
        return self.readall(base, rest, sig.bus)

    def readall(self, full, shape, bus):
        if shape:
            return [self.readall(full + "[%d]" % i, shape[1:], bus) for i in range(shape[0])]
        if bus is not None:
            return {f: self.readall(full + "." + f, sh, b) for f, (sh, b) in self.busfields(bus).items()}
        if self.mode == "dry":
            return 0
        if full not in self.values:
            raise Reject("signal %s read before assignment" % full)
        return self.values[full]

    def write(self, sig, ix, v):
        base = sig.full + sfx(ix)
        self.writeall(base, sig.shape[len(ix):], sig.bus, v)

    def writeall(self, full, shape, bus, v):
        if shape:
            if not isinstance(v, list) or len(v) != shape[0]:
                raise Reject("array size")
            for i in range(shape[0]):
                self.writeall(full + "[%d]" % i, shape[1:], bus, v[i])
            return
        if bus is not None:
            if not isinstance(v, dict):
                raise Reject("bus expected")
            for f, (sh, b) in self.busfields(bus).items():
                self.writeall(full + "." + f, sh, b, v[f])
            return
        if isinstance(v, (list, dict)):
            raise Reject("scalar expected")
        if self.mode == "witness":
            if full in self.values:
                raise Reject("signal %s assigned twice" % full)
            self.values[full] = v
            own = self.owner.get(full)
            if own is not None:
                own.missing -= 1
                if own.missing == 0:
                    self.run_inst(own)

    # ---- statements
    def st(self, s, sc, me):
        self.steps += 1
        if self.steps > self.STEP_LIMIT:
            raise Reject("too many steps")
        k = s[0]
        if k == "block":
            s2 = Scope(sc)
            for x in s[1]:
                self.st(x, s2, me)
        elif k == "seq":
            for x in s[1]:
                self.st(x, sc, me)
        elif k == "decl":
            self.declare(s, sc, me)
        elif k == "sub":
            self.assign(s[1], s[2], s[3], sc, me)
        elif k == "opsub":
            v = self.f.op(s[2], self.ev(s[1], sc, me), self.ev(s[3], sc, me))
            self.store(s[1], "=", v, sc, me)
        elif k == "if":
            if self.truth(self.ev(s[1], sc, me)):
                self.st(s[2], Scope(sc), me)
            elif s[3] is not None:
                self.st(s[3], Scope(sc), me)
        elif k == "while":
            while self.truth(self.ev(s[1], sc, me)):
                self.st(s[2], Scope(sc), me)
        elif k == "ret":
            raise Return(self.ev(s[1], sc, me))
        elif k == "ceq":
            self.constrain(self.ev(s[1], sc, me), self.ev(s[2], sc, me))
        elif k == "assert":
            ok = self.truth(self.ev(s[1], sc, me))
            if not ok and self.mode == "witness":
                raise Fail("assert")
        elif k == "log":
            line = []
            for a in s[1]:
                line.append(a[1] if a[0] == "str" else str(self.ev(a, sc, me)))
            if self.mode == "witness":
                self.logs.append(" ".join(line))
        elif k == "anonstmt":
            self.anonymous(s[1], sc, me)
        else:
            raise Reject("statement " + k)

    def constrain(self, l, r):
        if isinstance(l, list) or isinstance(r, list):
            if not (isinstance(l, list) and isinstance(r, list)) or len(l) != len(r):
                raise Reject("array sizes in constraint")
            for a, b in zip(l, r):
                self.constrain(a, b)
            return
        if isinstance(l, dict) or isinstance(r, dict):
            for f in l:
                self.constrain(l[f], r[f])
            return
        ok = (l - r) % self.p == 0
        if self.mode == "check":
            self.constraints.append(ok)
        elif self.mode == "witness" and not ok and self.sanity >= 1:
            raise Fail("constraint")

    def declare(self, s, sc, me):
        _, kind, name, dims, tags, bus = s
        nl = len(self.logs)
        shape = [self.ev(d, sc, me) for d in dims]
        del self.logs[nl:]  # (sizes are computed by the compiler)
        if kind == "var":
            sc.d[name] = ["v", zeros(shape)]
        elif kind == "component":
            sc.d[name] = ["c", CompArr(shape)]
        else:
            b = None
            if bus:
                b = (bus[0], [self.ev(x, sc, me) for x in bus[1]])
            sig = Sig(kind, me.prefix + "." + name, shape, b, tags)
            sc.d[name] = ["s", sig]
            me.decls.append((name, sig))

    def assign(self, lhs, op, rhs, sc, me):
        if lhs[0] == "tuple":
            if rhs[0] == "tuple":
                if len(rhs[1]) != len(lhs[1]):
                    raise Reject("tuple sizes")
                for l, r in zip(lhs[1], rhs[1]):
                    self.assign(l, op, r, sc, me)
                return
            r = rhs[1] if rhs[0] == "par" else rhs
            if r[0] == "anon":
                outs = self.anonymous(r, sc, me)
                if len(outs) != len(lhs[1]):
                    raise Reject("tuple sizes")
                for l, v in zip(lhs[1], outs):
                    self.store(l, op, v, sc, me)
                return
            raise Reject("tuple")
        # component creation
        if lhs[0] == "var" and lhs[1] != "_":
            slot = sc.find(lhs[1])[lhs[1]]
            if slot[0] == "c" and all(a[0] == "i" for a in lhs[2]):
                r = rhs[1] if rhs[0] == "par" else rhs
                if r[0] != "call":
                    raise Reject("component needs a template")
                ix = tuple(self.ev(a[1], sc, me) for a in lhs[2])
                ca = slot[1]
                if len(ix) != len(ca.shape) or any(i >= n for i, n in zip(ix, ca.shape)):
                    raise Reject("component index")
                if ix in ca.at:
                    raise Reject("component twice")
                inst = self.instantiate(r[1], [self.ev(x, sc, me) for x in r[2]], me.prefix + "." + lhs[1] + sfx(ix))
                ca.at[ix] = inst
                me.subs.append(inst)
                self.maybe_run(inst)
                return
        v = self.ev(rhs, sc, me)
        self.store(lhs, op, v, sc, me)

    def store(self, lhs, op, v, sc, me):
        _, name, acc = lhs
        if name == "_":
            return
        d = sc.find(name)
        slot = d[name]
        if slot[0] == "v":
            if op != "=":
                raise Reject("signal operator on a var")
            if not acc:
                slot[1] = self.fit(slot[1], v)
                return
            tgt = slot[1]
            for a in acc[:-1]:
                i = self.index(a[1], sc, me)
                if not isinstance(tgt, list) or i >= len(tgt):
                    raise Reject("index out of bounds")
                tgt = tgt[i]
            i = self.index(acc[-1][1], sc, me)
            if not isinstance(tgt, list) or i >= len(tgt):
                raise Reject("index out of bounds")
            tgt[i] = self.fit(tgt[i], v)
            return
        if op == "=":
            raise Reject("= on a signal")
        sig, ix, _ = self.locate(slot, acc, sc, me)
        self.write(sig, ix, v)
        if op == "<==" and self.mode == "check":
            self.constrain(self.read(sig, ix), v)

    def fit(self, old, v):
        """assigning an array to an array variable of another length keeps the tail of the longer one as it was"""
        if isinstance(old, list):
            if not isinstance(v, list):
                raise Reject("array size")
            return [self.fit(o, v[i]) if i < len(v) else o for i, o in enumerate(old)]
        if isinstance(v, (list, dict)):
            raise Reject("scalar expected")
        return v

    # ---- components
    def interface(self, tname, params):
        key = (tname, repr(params))
        if key not in self.dry_cache:
            m = Machine(self.pr, self.p, "dry")
            m.dry_cache = self.dry_cache
            inst = m.instantiate_raw(tname, params, "@")
            m.body(inst)
            self.dry_cache[key] = inst
        return self.dry_cache[key]

    def instantiate_raw(self, tname, params, prefix):
        if tname not in self.pr.templates:
            raise Reject("no template " + tname)
        if len(params) != len(self.pr.templates[tname][0]):
            raise Reject("template arguments")
        i = Inst()
        i.template, i.params, i.prefix, i.decls, i.subs, i.ports = tname, params, prefix, [], [], {}
        return i

    def instantiate(self, tname, params, prefix):
        inst = self.instantiate_raw(tname, params, prefix)
        iface = self.interface(tname, params)
        inst.missing = 0
        for name, sig in iface.decls:
            if sig.kind in ("input", "output"):
                s2 = Sig(sig.kind, prefix + sig.full[1:], sig.shape, sig.bus, sig.tags)
                inst.ports[name] = s2
                if sig.kind == "input":
                    for n in self.leaves(s2.full, s2.shape, s2.bus):
                        inst.missing += 1
                        if self.mode == "witness":
                            self.owner[n] = inst
        return inst

    owner = None

    def maybe_run(self, inst):
        if self.mode == "check" or (self.mode == "witness" and inst.missing == 0):
            self.run_inst(inst)

    def run_inst(self, inst):
        self.insts.append(inst)
        self.body(inst)

    def body(self, inst):
        args, body, _ = self.pr.templates[inst.template]
        sc = Scope()
        for n, v in zip(args, inst.params):
            sc.d[n] = ["v", deep(v)]
        s2 = Scope(sc)
        for x in body[1]:
            self.st(x, s2, inst)
        if self.mode == "witness" and self.sanity >= 2 and any(i.missing for i in inst.subs):
            raise Fail("inputs of a subcomponent")

    def anonymous(self, e, sc, me):
        """e: ('anon', template, params, args, names); returns the outputs in declaration order"""
        _, tname, params, args, names = e
        self.anon += 1
        pv = [self.ev(x, sc, me) for x in params]
        inst = self.instantiate(tname, pv, me.prefix + ".%" + tname + "%" + str(self.anon))
        me.subs.append(inst)
        ins = [n for n, s in inst.ports.items() if s.kind == "input"]
        if len(ins) != len(args):
            raise Reject("inputs of anonymous component")
        if names is not None and sorted(n for n, _ in names) != sorted(ins):
            raise Reject("names of anonymous component")
        self.maybe_run(inst)
        for j, a in enumerate(args):
            n = names[j][0] if names is not None else ins[j]
            op = names[j][1] if names is not None else "<=="
            v = self.ev(a, sc, me)
            self.write(inst.ports[n], [], v)
            if op == "<==" and self.mode == "check":
                self.constrain(self.read(inst.ports[n], []), v)
        return [self.read(s, []) for s in inst.ports.values() if s.kind == "output"]


def _main(prog):
    e = prog.main
    if e is None or e[0] != "call":
        raise Reject("main")
    return e


def witness(prog, p, inputs, sanity=2, logs=None):
    """inputs: {scalar input name: int}; returns the machine, whose .values has every signal."""
    m = Machine(prog, p, "witness")
    m.sanity = sanity
    if logs is not None:
        m.logs = logs
    m.owner = {}
    e = _main(prog)
    inst = m.instantiate(e[1], [m.ev(x, Scope(), None) for x in e[2]], "main")
    m.main = inst
    m.maybe_run(inst)
    for name, sig in list(inst.ports.items()):
        if sig.kind == "input":
            for n in m.leaves(sig.full, sig.shape, sig.bus):
                k = n[len("main."):]
                if k not in inputs:
                    raise Reject("missing input " + k)
                m.values[n] = inputs[k] % p
                inst.missing -= 1
                if inst.missing == 0:
                    m.run_inst(inst)
    return m


def check(prog, p, values):
    """values: {full signal name: int} for every signal; True iff every constraint holds."""
    m = Machine(prog, p, "check", values)
    e = _main(prog)
    inst = m.instantiate(e[1], [m.ev(x, Scope(), None) for x in e[2]], "main")
    m.run_inst(inst)
    return all(m.constraints)


def input_names(prog, p):
    m = Machine(prog, p, "dry")
    e = _main(prog)
    inst = m.instantiate(e[1], [m.ev(x, Scope(), None) for x in e[2]], "main")
    out = []
    for name, sig in inst.ports.items():
        if sig.kind == "input":
            out += [n[5:] for n in m.leaves(sig.full, sig.shape, sig.bus)]
    return out


def eval_function(prog, p, name, args):
    return Machine(prog, p, "witness").call(name, args)
