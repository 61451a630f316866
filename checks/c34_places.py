"""C34: every error of the compiler names the file and the line of the mistake."""
import importlib, itertools, os, re, shutil
from mc import build, circom
from mc.par import pmap
from mc.report import Check
rules = importlib.import_module("checks.c29_rules")

BIN = None
# mistakes found when the program is executed: n is 1, w[2] a known array, a an input
EXEC = [
    "assert(n == 2);", "var q = w[2];", "w[n + 1] = 1;", "var q = 1 \\ (n - 1);", "var q = 1 % (n - 1);", "var q = 1 / (n - 1);", "signal q; o === q;", "signal q; q <== a; q <== a;", "signal q; q <== a*a*a;",
    "a*a === a*a*a;", "signal q[2]; q[2] <== a;", "signal q[2]; q[0] <== a; a === q[1];", "signal q[a];", "component q[2]; q[2] = A(1);", "component q = A(a);", "component q; q = A(1); q = A(1);", "component q[2]; q[0] = A(1); q[0] = A(2);",
    "component q = A(1); a === q.y;", "component q = A(1); q.x <== a; q.x <== a;", "component q; q.x <== a;", "signal q; q <== a / a;", "signal q; q <== a ** 2 * a;", "signal q; q <== w[a];", "signal q; q <== a < 2;", "a === (a == 1);",
    "if (a == 1) { a === 0; }", "for (var i = 0; i < a; i++) { a === 0; }", "if (a == 1) { component q = A(1); q.x <== a; }", "signal q[2]; q[a] <== 1;", "signal q[2]; q <== [a, a, a];", "var q = g(w, f(w[3]));",
    "z1[a] === 1;", "B(2) q; q.w[2] <== a;", "B(2) q; q.u <== a; q.u <== a;", "B(2) q; q.u === 1;", "B(1) q <== bb;", "component q = A2(1); q.z[2] <== a;", "kk[2].x === a;",
]
EXEC_F = ["assert(n == 2);", "var q = w[2];", "w[n + 1] = 1;", "var q = 1 \\ (n - 1);", "var q = 1 % (n - 1);", "var q = 1 / (n - 1);", "if (n == 1) { assert(w[n] == 0); }", "while (n < 3) { w[n] = n; n += 1; }", "var q = f(w[n + 1]);", "return w[n + 4];"]
# mistakes in the letters: comments and strings with no end, letters outside the alphabet
LETTERS = ["/* no end", "/*", "/**", "/*/", "/***\n// */*", "var q = 1; /* \u20ac * no", "#", "@", 'log("no end', 'log("no // end', 'log("\u20ac /* no end', "var q = \u00e9;", "var q\U0001f600;", "`", "var q = 1 ; ~ '"]
# what comes before the mistake; @ is the program
def text(where, stmt):
    return rules.program(where, "\n// before\n" + stmt + "\n// after\n")


CONTEXTS = {
    "plain": lambda s: {"m.circom": s},
    "comment": lambda s: {"m.circom": "/* one\n two // three\n*/ " + s},
    "comments": lambda s: {"m.circom": s.replace("// before", "/* a */ /* b\n */ // c */ /* d\n//* e\n/**/ /***/ /* //\n*/")},
    "other letters": lambda s: {"m.circom": "// \u00e9\u20ac\U0001f600\n/* \u00e9\n\u20ac\n*/" + s.replace("// before", "// \u20ac\u20ac\u20ac\u20ac\n/* \U0001f600\n*/")},
    "stars and letters": lambda s: {"m.circom": "/*" + "*\u20ac **\u00e9 *\U0001f600/" * 9 + "\n*\u20ac\n**/" + s.replace("// before", "// " + "\u20ac/" * 9 + "*/\n/* **" + "*\u20ac*/" + "/*\u20ac**//**\u20ac***/" * 9 + "/*/ *\u20ac" + "\n/***/")},
    "letters in strings": lambda s: {"m.circom": s.replace("// before", 'log("%s", "*\u00e9/");' % ("\u20ac \U0001f600" * 20))},
    "strings": lambda s: {"m.circom": s.replace("// before", 'log("\u00e9 // no comment");\nlog("/* no", "comment */");')},
    "carriage returns": lambda s: {"m.circom": s.replace("\n", "\r\n")},
    "empty lines": lambda s: {"m.circom": "\n\n\n" + s.replace("// before", "\n \n\t\n"), "x": ""},
    "long line": lambda s: {"m.circom": s.replace("// before", "/* %s */\n" % ("x" * 3000))},
    "no end of line": lambda s: {"m.circom": s.rstrip("\n")},
    "included": lambda s: {"lib.circom": "\n\n" + s[:s.index("template M()")], "m.circom": 'pragma circom 2.2.0;\ninclude "lib.circom";\n' + s[s.index("template M()"):]},
    "included twice": lambda s: {"lib.circom": "\n" + s[:s.index("template M()")], "b.circom": 'include "lib.circom";\n', "m.circom": '\n\ninclude "b.circom";\ninclude "lib.circom";\n' + s[s.index("template M()"):]},
    "includes": lambda s: {"lib.circom": "bus LB() { signal u; }\n\nfunction lf(x) { return x; }\n", "m.circom": s.replace(";", ';\ninclude "lib.circom";', 1)},
    "among includes": lambda s: {"a.circom": "// a\n\n\ntemplate LA() { signal input x; }\n", "z.circom": "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\ntemplate LZ() { signal input x; }\n", "d/lib.circom": s[:s.index("template M()")].replace(";", '; include "../z.circom";', 1),
                                 "m.circom": 'include "a.circom";\ninclude "d/lib.circom";\ninclude "z.circom";\n' + s[s.index("template M()"):]},
}
# mistakes whose error is about another place: the body of a function of wrong arguments, and unbalanced brackets
ELSEWHERE = re.compile(r"^\(1 == 1 \? v : 1\)$|\b[fg]\(\[|\b[fgh]\((v|z1|bb|k|kk|k2\.t|bb\.w|1, 1|v, v|kk\.y|k2|zz\[0\])\)|^\{ s = 1;|^\} s|A\(1\)\(1\)|h\(v\)|^return \[\[|[fg]\(v|[fg]\(z1")


def cases(deep):
    """(key, files, file and lines of the mistake)"""
    out = []

    def add(key, src, ctx):
        files = {n: t for n, t in CONTEXTS[ctx](src).items() if n.endswith(".circom")}
        for n, t in files.items():
            if "// after" in t:
                line = t[:t.index("// after")].count("\n")
                out.append((key + ", " + ctx + ("!" if " top" in key else ""), files, n, line))

    for ctx in CONTEXTS:
        for kinds, w in (("T", "template"), ("F", "function")):
            for k in (kinds, "TF"):
                for st in rules.BAD_STMT[k]:
                    if not ELSEWHERE.search(st):
                        add("%s top: %s" % (w, st), text(w, st), ctx)
        for st in LETTERS:
            for w in ("template", "function"):
                add("%s top letters: %s" % (w, st), text(w, st), ctx)
        for st in EXEC:
            add("template: " + st, text("template", "var w[2] = [1, 1]; " + st), ctx)
        for st in EXEC_F:
            add("function: " + st, text("function", "var w[2] = [1, 1]; " + st), ctx)
    for pos, t in rules.STMT.items():
        for kinds, w in (("T", "template"), ("F", "function")):
            for k in (kinds, "TF"):
                for st in rules.BAD_STMT[k]:
                    if not ELSEWHERE.search(st) and pos != "top":
                        if not (pos in ("never", "untaken", "untaken else") and st.startswith("k.y <")):
                            add("%s %s: %s" % (w, pos, st), rules.program(w, t.replace("@", "\n// before\n" + st + "\n// after\n")), "plain")
                            if deep:
                                for ctx in list(CONTEXTS)[1:]:
                                    add("%s %s: %s" % (w, pos, st), rules.program(w, t.replace("@", "\n// before\n" + st + "\n// after\n")), ctx)
    for pos, (t, fl) in rules.EXPR.items():
        bads = [b for b, k in rules.BAD.items()] + ([b for b in rules.ARRAYS] if pos not in rules.TAKES_ARRAY else [])
        for b in bads:
            if not ELSEWHERE.search(b):
                for ctx in CONTEXTS if deep else ["plain"]:
                    add("%s: %s" % (pos, b), text("template", t.replace("@", b)), ctx)
                # the expression alone in its line
                if pos != "tuple" and not (b in ("E(1)", "A(1)") and pos in ("input", "reverse")):
                    out.append(("%s, alone: %s" % (pos, b), *alone(t, b)))
    return out


def alone(t, b):
    s = rules.program("template", t.replace("@", "\n// before\n" + b + "\n// after\n"))
    a = s[:s.index("// before")].count("\n")
    return {"m.circom": s}, "m.circom", list(range(a + 1, s[:s.index("// after")].count("\n") + 3))


def one(job):
    key, files, name, line = job
    d = circom.scratch()
    try:
        for n, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        r = circom.run(BIN, files["m.circom"], ["--r1cs"], d, files={n: t for n, t in files.items() if n != "m.circom"})
        text = re.sub(r"\x1b\[[0-9;]*m", "", r.err + r.out)
        errs = [b for b in re.split(r"(?m)^(?=error|warning|previous errors)", text) if b.startswith("error[")]
        if r.rc != 1 or not errs:
            return key, {"expected": "rejected", "rc": r.rc, "files": files, "output": text[-800:]}
        if not key.endswith("!") and all(b.startswith(("error[P1008]", "error[P1012]")) for b in errs):
            return None     # (in the middle of a statement or block, the error may be where the text makes no sense any more)
        where = []
        for b in errs:
            h = re.search(r'\u250c\u2500 "?([^"\n]*?)"?:(\d+):(\d+)', b)
            rows = [int(x) for x in re.findall(r"(?m)^ *(\d+) \u2502", b)]
            where.append((h.group(1), int(h.group(2)), max(rows) if "\u256d" in b else int(h.group(2))) if h else None)
        lines = line if isinstance(line, list) else [line]
        good = [w is not None and os.path.normpath(os.path.join(d, w[0])) == os.path.join(os.path.realpath(d), name) or w is not None and os.path.normpath(os.path.join(d, w[0])) == os.path.join(d, name) for w in where]
        # (in one line, or, where the mistake has its own line in a statement, from the beginning to the end of what contains it)
        good = [g and (w[1] in lines or isinstance(line, list) and w[1] < lines[0] < w[2]) for g, w in zip(good, where)]
        if not good[0] or not all(good):
            return key, {"expected": (name, lines), "observed": where, "files": files, "output": text[:1500]}
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C34")
    BIN = build.circom()
    jobs = cases(ck.thorough)
    for r in pmap(one, jobs, 20):
        if r:
            ck.violation(*r)
    ck.add(programs=len(jobs), states=len(jobs), transitions=len(jobs), traces_validated_against_impl=len(jobs))
    ck.cov["rule"] = "a state is a program with one mistake; a trace is one run of the compiler on it whose errors are compared with the file and line of the mistake"
    ck.cov["contexts"] = list(CONTEXTS)
    ck.sample({"program": jobs[0][1]})
    ck.finish()
