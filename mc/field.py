"""Reference semantics of circom's operators over Z/p (mkdocs/docs/circom-language/basic-operators.md)."""


class Undefined(Exception):
    """The documentation gives the operation no value (division by zero)."""


class F:
    def __init__(self, p):
        self.p = p
        self.b = p.bit_length()
        self.mask = (1 << self.b) - 1
        self.half = p // 2

    def val(self, z):
        return z - self.p if z >= self.half + 1 else z

    def shr(self, x, k):
        if k <= self.half:
            return x >> k if k < 2 * self.b else 0
        return self.shl(x, self.p - k)

    def shl(self, x, k):
        if k <= self.half:
            return ((x << k) & self.mask) % self.p if k <= self.b else 0
        return self.shr(x, self.p - k)

    def op(self, o, x, y=None):
        p = self.p
        if o == "+": return (x + y) % p
        if o == "-": return (x - y) % p
        if o == "*": return x * y % p
        if o == "**": return pow(x, y, p)
        if o in ("/", "\\", "%"):
            if y == 0:
                raise Undefined(o)
            if o == "/": return x * pow(y, -1, p) % p
            if o == "\\": return x // y
            return x % y
        if o == "&": return (x & y) % p
        if o == "|": return (x | y) % p
        if o == "^": return (x ^ y) % p
        if o == "<<": return self.shl(x, y)
        if o == ">>": return self.shr(x, y)
        if o == "<": return int(self.val(x) < self.val(y))
        if o == ">": return int(self.val(x) > self.val(y))
        if o == "<=": return int(self.val(x) <= self.val(y))
        if o == ">=": return int(self.val(x) >= self.val(y))
        if o == "==": return int(x == y)
        if o == "!=": return int(x != y)
        if o == "&&": return int(x != 0 and y != 0)
        if o == "||": return int(x != 0 or y != 0)
        raise ValueError(o)

    def un(self, o, x):
        if o == "-": return -x % self.p
        if o == "!": return int(x == 0)
        if o == "~": return (x ^ self.mask) % self.p
        raise ValueError(o)


ARITH = ["+", "-", "*", "**", "/", "\\", "%"]
BIT = ["&", "|", "^", "<<", ">>"]
REL = ["<", ">", "<=", ">=", "==", "!="]
BOOL = ["&&", "||"]
BINOPS = ARITH + BIT + REL + BOOL
UNOPS = ["-", "!", "~"]


def alphabet(p, big=True):
    """Boundary values of Z/p: word, sign, representation and modulus boundaries."""
    b = p.bit_length()
    h = p // 2
    c = [0, 1, 2, 3, 5, 7, 8, 31, 32, 63, 64, b - 1, b, b + 1, 255, 256]
    for e in (31, 32, 63, 64, 128, 192, b - 2, b - 1):
        if e < b:
            c += [(1 << e) - 1, 1 << e]
    c += [(1 << 32) + 1, (1 << 64) + 1, h - 1, h, h + 1, h + 2, p - 1, p - 2, p - 3, p - 8, p - 31, p - 32, p - 63, p - 64, p - b, p - b + 1, p - b - 1]
    for e in (31, 32, 63, 64):
        c += [p - (1 << e) - 1, p - (1 << e), p - (1 << e) + 1]
    c += [pow(2, -1, p), pow(3, -1, p), 0x0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF % p, (1 << b) - 1 - p]
    out = []
    for v in c:
        v %= p
        if v not in out:
            out.append(v)
    return out
