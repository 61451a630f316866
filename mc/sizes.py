"""Circuits whose size in one dimension is a parameter: how many signals, inputs, components, templates, functions, terms, constants, levels of nesting, characters of a name, ..."""
NS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]
MORE = [511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]
HUGE = [8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537]


def top(n):
    return [x for x in NS + MORE + HUGE if x <= n]


def prog(body, lib="", main="M()"):
    return "pragma circom 2.2.0;\n%s\ntemplate M() {\n%s\n}\ncomponent main = %s;\n" % (lib, body, main)


IO = "signal input a; signal input b; signal output o;"


def two():
    return [{"a": 3, "b": 5}, {"a": -2, "b": 2 ** 70}]


def signals(n):
    return prog(IO + " signal s[%d]; s[0] <== a*b; for (var i = 1; i < %d; i++) { s[i] <== s[i-1]*a + i; } o <== s[%d] + b;" % (n + 1, n + 1, n)), two()


def inputs(n):
    return prog("signal input v[%d]; %s var r = 0; for (var i = 0; i < %d; i++) { r = 3*r + v[i]*(i + 1); } o <== a*b + r;" % (n, IO, n)), [{**x, **{"v[%d]" % i: (i * i + 7 * k) for i in range(n)}} for k, x in enumerate(two())]


def input_names(n):
    return prog("%s %s signal x; x <== %s a*b; o <== x;" % (" ".join("signal input i%d;" % i for i in range(n)), IO, "".join("%d*i%d + " % (i + 2, i) for i in range(n)))), [{**x, **{"i%d" % i: (i * i + 7 * k) for i in range(n)}} for k, x in enumerate(two())]


def outputs(n):
    return prog("signal output q[%d]; %s for (var i = 0; i < %d; i++) { q[i] <== a*b + i; } o <== a;" % (n, IO, n)), two()


def statements(n):
    return prog(IO + "".join(" signal s%d; s%d <== %s*a + %d;" % (i, i, "s%d" % (i - 1) if i else "b", i) for i in range(n)) + " o <== a + %s;" % ("s%d" % (n - 1) if n else "b")), two()


def components(n):
    return prog(IO + " component c[%d]; for (var i = 0; i < %d; i++) { c[i] = T(); c[i].x <== i == 0 ? a : c[i == 0 ? 0 : i - 1].y; } o <== b;" % (n + 1, 1) + " for (var i = 1; i < %d; i++) { c[i] = T(); c[i].x <== c[i-1].y + b; } signal z; z <== c[%d].y*a;" % (n + 1, n), "template T() { signal input x; signal output y; y <== x*x + 1; }"), two()


def independent(n):
    return prog(IO + " component c[%d]; for (var i = 0; i < %d; i++) { c[i] = T(); c[i].x <== a + i; } var r = 0; for (var i = 0; i < %d; i++) { r = 5*r + c[i].y; } o <== b + r;" % (n, n, n), "template T() { signal input x; signal output y; y <== x*x + 1; }"), two()


def instances(n):
    return prog(IO + " component c[%d]; for (var i = 0; i < %d; i++) { c[i] = T(i); c[i].x <== a + i; } var r = 0; for (var i = 0; i < %d; i++) { r = 5*r + c[i].y; } o <== b + r;" % (n, n, n), "template T(k) { signal input x; signal output y; signal m; m <== x*(x + k); y <== m + k; }"), two()


def shapes(n):
    """components of as many instances, with outputs of different sizes, in an array"""
    return prog(IO + " component c[%d]; for (var i = 0; i < %d; i++) { c[i] = T(i %% 40); c[i].x <== a + i; } var r = 0; for (var i = 0; i < %d; i++) { r = 5*r + c[i].y[(i %% 40) \\ 2] + c[i].e; } o <== b + r;" % (n, n, n), "template T(k) { signal input x; signal output y[k + 1]; signal output e; for (var i = 0; i <= k; i++) { y[i] <== x*(x + i); } e <== x + k; }"), two()


def templates(n):
    return prog(IO + "".join(" component c%d = T%d(); c%d.x <== %s;" % (i, i, i, "c%d.y + b" % (i - 1) if i else "a") for i in range(n)) + " o <== b + %s;" % ("c%d.y" % (n - 1) if n else "a"), "".join("template T%d() { signal input x; signal output y; y <== x*x + %d; }\n" % (i, i) for i in range(n))), two()


def functions(n):
    return prog(IO + " var r = a; %s o <-- r + b;" % "".join(" r = f%d(r);" % i for i in range(n)), "".join("function f%d(x) { if (x > %d) { return x + %d; } return x*2 + 1; }\n" % (i, i, i) for i in range(n))), two()


def instances_f(n):
    """one function on arrays of every length"""
    return prog(IO + " var r = 0; %s o <-- r + b;" % "".join(" var v%d[%d]; v%d[%d] = a; r += f(v%d, b);" % (i, i + 1, i, i // 2, i) for i in range(n)), "function f(v, x) { var i = 0; for (i = 0; i < 5; i++) { x = x*3 + v[0]; } return x + v[0]; }"), two()


def parameters(n):
    return prog(IO + " component c = T(%s); c.x <== a; o <== b + c.y;" % ", ".join(str(i) for i in range(n)), "template T(%s) { signal input x; signal output y; y <== x*x%s; }" % (", ".join("p%d" % i for i in range(n)), "".join(" + %d*p%d" % (i + 2, i) for i in range(n)))), two()


def arguments(n):
    return prog(IO + " o <-- b + f(%s);" % ", ".join("a + %d" % i for i in range(n)), "function f(%s) { return 1%s; }" % (", ".join("p%d" % i for i in range(n)), "".join(" + %d*p%d" % (i + 2, i) for i in range(n)))), two()


def terms(n):
    return prog("signal input v[%d]; %s signal x; x <== (%sa)*(%sb) + %sa; o <== x;" % (n, IO, "".join("%d*v[%d] + " % (i + 1, i) for i in range(n)), "".join("%d*v[%d] + " % (2 * i + 3, i) for i in range(n)), "".join("v[%d] - " % i for i in range(n)))), [{**x, **{"v[%d]" % i: (i * i + 7 * k) for i in range(n)}} for k, x in enumerate(two())]


def constants(n):
    return prog(IO + " var r = b; %s o <-- r; " % "".join(" r = r*%d + %d;" % (10 ** 6 + i, (i * 2654435761) ** 5 + 2 ** 31 - 3) for i in range(n))), two()


def digits(n):
    return prog(IO + " o <== a*%s1 + b*0x%sf;" % ("7" * n, "e" * n)), two()


def depth(n):
    return prog(IO + " component c = T(%d); c.x <== a; o <== b + c.y;" % n, "template T(n) { signal input x; signal output y; if (n == 0) { y <== x*x; } else { component c = T(n - 1); c.x <== x + n; y <== c.y + n*x; } }"), two()


def names(n):
    k = "k" * n
    return prog(IO + " signal x%s; x%s <== a*b; component c%s = T%s(3); c%s.i%s <== a; var v%s = f%s(a, b); signal q; q <-- v%s; B%s() z%s; z%s.f%s <== a; o <== x%s + c%s.o%s + z%s.f%s;" % ((k,) * 18),
                "bus B%s() { signal f%s; }\nfunction f%s(x%s, y%s) { return x%s*3 + y%s; }\ntemplate T%s(p%s) { signal input i%s; signal output o%s; o%s <== i%s*i%s + p%s; }" % ((k,) * 15)), two()


def strings(n):
    return prog(IO + " o <== a*b; " + "".join('log("message %d", a);' % i for i in range(n))), two()


def asserts(n):
    return prog(IO + " o <== a*b; " + "".join("assert(a != %d);\n" % (i + 4) for i in range(n)) + "".join("signal z%d; z%d <== a*%d; z%d === %d*a;\n" % (i, i, i, i, i) for i in range(n))), two()


def branches(n):
    return prog(IO + " var r = b; if (a == 1) { r = 1; } %s else { r = r + 7; } o <-- r + a;" % "".join(" else if (a == %d) { r = r*2 + %d; }" % (i + 2, i) for i in range(n))), two() + [{"a": n, "b": 4}, {"a": n + 1, "b": 4}, {"a": n + 2, "b": 5}]


def iterations(n):
    return prog(IO + " var r = 0; var i = 0; while (i < a) { r = r*3 + b; i++; } o <-- r;"), [{"a": n, "b": 3}, {"a": n + 1, "b": 2}]


def unrolled(n):
    return prog(IO + " var r = a; for (var i = 0; i < %d; i++) { r = r*3 + i; } signal x; x <== r*b; o <== x;" % n), two()


def variables(n):
    return prog(IO + "".join(" var r%d = %s*3 + %d;" % (i, "r%d" % (i - 1) if i else "b", i) for i in range(n)) + " o <-- %s + a*%s;" % ("r%d" % (n - 1) if n else "0", "r0" if n else "1")), two()


def array_values(n):
    return prog(IO + " var v[%d] = f(a); var w[%d] = v; signal s[%d]; s <-- w; signal t[%d]; t <== s; var r = 0; for (var i = 0; i < %d; i++) { r = r*3 + t[i]; } component c = T(); c.v <== t; o <== r + b + c.y;" % ((n + 1,) * 5),
                "function f(x) { var r[%d]; for (var i = 0; i < %d; i++) { r[i] = x + i; } return r; }\ntemplate T() { signal input v[%d]; signal output y; y <== v[0]*v[%d]; }" % (n + 1, n + 1, n + 1, n)), two()


def bus_fields(n):
    return prog(IO + " B() z; B() y; z.k <== a; %s y <== z; component c = T(); c.z <== y; o <== b + y.k%s + c.y;" % ("".join("z.f%d <== a + %d; " % (i, i) for i in range(n)), "".join(" + %d*y.f%d" % (i + 1, i) for i in range(n))),
                "bus B() { %ssignal k; }\ntemplate T() { input B() z; signal output y; y <== z.k%s; }" % ("".join("signal f%d; " % i for i in range(n)), "".join(" + %d*z.f%d" % (i + 3, i) for i in range(n)))), two()


def bus_depth(n):
    return prog(IO + " B%d() z; z%s.s <== a; z%s.t <== b; component c = T(); c.z <== z; o <== b + c.y + 3*z%s.t;" % ((n,) + (".b" * n,) * 3), "bus B0() { signal s; signal t; }\n" + "".join("bus B%d() { B%d() b; }\n" % (i + 1, i) for i in range(n)) + "template T() { input B%d() z; signal output y; y <== z%s.s*z%s.t; }" % ((n,) + (".b" * n,) * 2)), two()


def bus_instances(n):
    return prog(IO + "".join(" B(%d) z%d; for (var i = 0; i <= %d; i++) { z%d.f[i] <== a + i; }" % (i % 60, i, i % 60, i) for i in range(n)) + " o <== b%s;" % "".join(" + z%d.f[%d]" % (i, (i % 60) // 2) for i in range(n)), "bus B(n) { signal f[n + 1]; }"), two()


def dimensions(n):
    d, z = "[2]" * n, "[1]" * n
    return prog(IO + " signal s%s; var v%s; %s v%s = b; signal w%s; w <-- v; component c = T(); c.v <== s; o <== s%s + w%s + c.y;" % (d, d, "".join("s%s <== a + %d; " % ("".join("[%d]" % ((i >> j) & 1) for j in range(n)), i) for i in range(2 ** n)), z, d, z, z),
                "template T() { signal input v%s; signal output y; y <== v%s*v%s; }" % (d, z, "[0]" * n)), two()


def tuples(n):
    if n < 2:
        n = 2
    return prog(IO + " signal (%s) <== (%s); var (%s) = (%s); o <-- b%s; signal z; z <== s0%s;" % (", ".join("s%d" % i for i in range(n)), ", ".join("a + %d" % i for i in range(n)), ", ".join("v%d" % i for i in range(n)), ", ".join("s%d*3" % i for i in range(n)), "".join(" + %d*v%d" % (i + 1, i) for i in range(n)), "".join(" + %d*s%d" % (i + 1, i) for i in range(n)))), two()


def anonymous(n):
    e = "a"
    for i in range(n):
        e = "T(%d)(%s)" % (i % 9, e)
    return prog(IO + " signal z; z <== %s; o <== b + z;" % e, "template T(k) { signal input x; signal output y; y <== x*x + k; }"), two()


def parentheses(n):
    return prog(IO + " o <== b + %sa%s;" % ("(" * n, " + 1)" * n)), two()


def sums(n):
    return prog(IO + " o <== b%s;" % "".join(" + a*%d" % i for i in range(n))), two()


def blocks(n):
    return prog(IO + " var r = a; %s o <-- r + b;" % ("".join("{ var q%d = r; if (b != %d) { r = r*3 + q%d; " % (i, i, i) for i in range(n)) + " r += 1; " + "} }" * n)), two()


def public(n):
    return prog(IO + "".join(" signal input i%d;" % i for i in range(n)) + " signal x; x <== a*b%s; o <== x;" % "".join(" + %d*i%d" % (i + 2, i) for i in range(n)), "", "M()").replace("component main", "component main {public [b%s]}" % "".join(", i%d" % i for i in range(0, n, 2))), [{**x, **{"i%d" % i: (i * i + 7 * k) for i in range(n)}} for k, x in enumerate(two())]


# the largest size of the quick check and of the thorough one (limited by what takes a second, or by the stack of the compiler)
KINDS = {signals: (4097, 65537), inputs: (257, 4097), input_names: (129, 129), outputs: (513, 16384), statements: (513, 4097), components: (257, 4097), independent: (513, 8193), instances: (257, 1025), shapes: (129, 513), templates: (257, 1025), functions: (257, 1025), instances_f: (33, 129),
         parameters: (65, 257), arguments: (65, 257), terms: (65, 65), constants: (257, 2049), digits: (257, 4097), depth: (33, 129), names: (257, 1025), strings: (257, 2049), asserts: (257, 1025), branches: (17, 33), iterations: (4097, 65537), unrolled: (4097, 65537), variables: (257, 1025),
         array_values: (257, 2049), bus_fields: (129, 513), bus_depth: (33, 65), bus_instances: (65, 257), dimensions: (7, 9), tuples: (129, 513), anonymous: (17, 33), parentheses: (33, 65), sums: (33, 65), blocks: (15, 17), public: (65, 65)}


def cases(deep, few=False):
    """(kind, size, source, inputs), the larger ones first"""
    out = []
    for f, t in KINDS.items():
        for n in top(t[deep]):
            if few and n not in (0, 1, 2, 8, 17, 33, 64, 129, 257, 513, 1025, 4097):
                continue
            s, i = f(n)
            out.append((f.__name__, n, s, i))
    return sorted(out, key=lambda c: (-c[1], c[0]))


# ---- systems of constraints (the values of the signals are not computed)
def system(n, stmts, more="", lib=""):
    return "pragma circom 2.2.0;\n%s\ntemplate M() { signal input a; signal input b; signal output o; o <-- a; %s signal s[%d]; for (var i = 0; i < %d; i++) { s[i] <-- a; }\n%s\n}\ncomponent main = M();\n" % (lib, more, n, n, stmts)


def each(n, f, order=None):
    return "\n".join(f(i) for i in (order or range)(n))


def back(n):
    return range(n - 1, -1, -1)


def stride(n):
    return sorted(range(n), key=lambda i: (i * 7 % 13, i))


NL = " s[0]*s[0] === o; "
ORDERS = {"up": None, "down": back, "stride": stride}
SHAPES = {
    "chain": lambda n, o: each(n - 1, lambda i: "s[%d] === s[%d] + a;" % (i + 1, i), o) + NL + "s[%d]*b === a;" % (n - 1),
    "equal_chain": lambda n, o: each(n - 1, lambda i: "s[%d] === s[%d];" % (i + 1, i), o) + NL + "s[%d]*b === a;" % (n // 2),
    "equal_tree": lambda n, o: each(n - 1, lambda i: "s[%d] === s[%d];" % (i + 1, i // 2), o) + NL + "s[%d]*b === s[%d];" % (n - 1, n // 2),
    "equal_star": lambda n, o: each(n - 1, lambda i: "s[%d] === s[%d];" % (n // 2, i + (i >= n // 2)), o) + NL + "s[%d]*b === a;" % (n - 1),
    "equal_cycles": lambda n, o: each(n, lambda i: "s[%d] === s[%d];" % (i, (i + 3) % n), o) + NL + each(n, lambda i: "s[%d]*a === b + %d;" % (i, i % 3)),
    "equal_public": lambda n, o: each(n, lambda i: "s[%d] === %s;" % (i, ("a", "b", "o", "s[%d]" % (i // 2))[i % 4]), o) + NL,
    "constants": lambda n, o: each(n, lambda i: "s[%d] === %d;" % (i, i * i), o) + " s[0]*o === a;",
    "star": lambda n, o: each(n - 1, lambda i: "s[%d] === %d*s[0] + %d;" % (i + 1, i + 2, i), o) + NL + each(n, lambda i: "s[%d]*a === s[%d];" % (i, n - 1 - i)),
    "ring": lambda n, o: each(n - 1, lambda i: "s[%d] + s[%d] === s[%d];" % (i, (i + 1) % n, (i + 2) % n), o) + NL,
    "dense": lambda n, o: each(n // 2, lambda i: "%s === a + %d;" % (" + ".join("%d*s[%d]" % ((i * j + j * j + 1) % 11 + 1, j) for j in range(min(n, 40))), i), o) + NL,
    "pairs": lambda n, o: each(n // 2, lambda i: "s[%d] === 2*s[%d] + b;" % (2 * i, (2 * i + 1) % n), o) + NL + each(n, lambda i: "s[%d]*s[%d] === a;" % (i, (i + 1) % n)),
    "doubled": lambda n, o: each(n - 1, lambda i: "s[%d] === s[%d] + a; 3*s[%d] === 3*s[%d] + 3*a;" % (i + 1, i, i + 1, i), o) + NL,
    "products": lambda n, o: each(n, lambda i: "s[%d]*s[%d] === s[%d];" % (i, (i + 1) % n, (i + 2) % n), o) + " s[%d] === o;" % (n - 1),
    "repeated": lambda n, o: each(n, lambda i: "s[%d]*a === b; s[%d] === s[%d];" % (i, i, i ^ 1 if i ^ 1 < n else 0), o) + NL,
    "blocks": lambda n, o: each(n, lambda i: "s[%d] === s[%d] + %s;" % (i, i - i % 5, "o" if i % 5 == 4 else "a*%d" % i) if i % 5 else "s[%d]*a === s[%d];" % (i, (i * 3 + 1) % n), o),
    "to_linear": lambda n, o: each(n, lambda i: "s[%d] === %d;" % (i, i + 2) if i % 3 == 0 else "s[%d]*s[%d] === s[%d] + b;" % (i - i % 3, i, (i + 1) % n), o) + NL,
    "rounds": lambda n, o: "s[0] === 2; " + each(n - 1, lambda i: "s[%d]*s[%d] === %d;" % (i, i + 1, (i + 2) * (i + 3)), o) + " s[%d]*a === b; s[%d]*o === a;" % (n - 1, n // 2),
    "rounds_linear": lambda n, o: "s[0] === 2; s[1] === a + b; " + each(n - 2, lambda i: "s[%d]*s[%d] === %d;" % (i, i + 2, (i + 2) * (i + 4)) if i % 2 == 0 else "s[%d]*s[%d] === s[%d] + a;" % (i + 1, i + 2, i), o) + " s[%d]*a === b;" % (n - 1),
    "wide": lambda n, o: "s[0] === 2; s[1] === %s; " % " + ".join("%d*s[%d]" % (i % 5 + 1, i) for i in range(2, min(n, 100))) + each(n, lambda i: "s[0]*s[%d] === b + %d;" % (i, i) if i > 1 else "s[%d]*a === o;" % i, o),
    "wide_late": lambda n, o: "s[0] === 2; s[1]*s[0] === %s; " % " + ".join("%d*s[%d]" % (i % 5 + 1, i) for i in range(2, min(n, 100))) + each(n, lambda i: "s[%d] === s[%d] + %d;" % (i, i + 1 if i + 1 < n else 2, i) if i > 1 and i % 7 else "s[%d]*a === o;" % i, o),
    "rounds_star": lambda n, o: "s[0] === 2; s[0]*s[1] === s[2] + a; s[0]*s[3] === 8; s[3]*s[1] === b + 1; " + each(n, lambda i: "s[%d]*s[2] === s[%d]*a;".replace("*a", "") % (i, (i * 3 + 1) % n) if i > 3 else "s[%d]*o === s[%d];" % (i, n - 1), o),
    "grid": lambda n, o: each(n, lambda i: "s[%d] + s[%d] === s[%d] + %d;" % (i, (i * 5 + 1) % n, (i // 2), i) if i % 4 else "s[%d]*s[%d] === s[%d];" % (i, (i + 2) % n, (i + 1) % n), o),
}


def systems(deep):
    for sh, f in SHAPES.items():
        for on, o in ORDERS.items():
            for n in top(1025 if deep else 513):
                if n >= 4 and (deep or n in (4, 5, 7, 8, 16, 33, 64, 65, 129, 256, 257, 400, 513)):
                    if sh == "dense" and n > (257 if deep else 129) or n > 257 and on == "stride" and not deep:
                        continue
                    yield "%s %s" % (sh, on), n, system(n, f(n, o)), []
                    if n <= 65 or deep:
                        h = n // 2
                        yield "%s %s in components" % (sh, on), n, system(2, "component c[3]; for (var i = 0; i < 3; i++) { c[i] = S(); } c[0].x <== a; c[1].x <== c[0].y; c[2].x <== c[1].y; c[2].y === o;", "",
                              "template S() { signal input x; signal output y; signal a; signal b; signal o; a <-- x; b <-- x; o <-- x; signal s[%d]; for (var i = 0; i < %d; i++) { s[i] <-- x; } y <-- x; y === s[%d]; s[%d] === x + 1; a === b + x; %s }" % (n, n, h, h // 2, f(n, o))), []
