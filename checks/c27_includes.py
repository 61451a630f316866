"""C27: the program is the main file with everything it includes, each file once, found where it must be."""
import itertools, os, shutil
from mc import build, circom
from mc.par import pmap
from mc.report import Check

BIN = None
DIRS = ["", "d/", "l1/", "l2/"]


class No(Exception):
    pass


def closure(files, links, main, libs):
    """files: {path: (includes, ...)}; the set of files read, or No"""
    def canon(p):
        p = os.path.normpath(p)
        return links.get(p, p)

    seen, todo = [], [main]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.append(f)
        for inc in files[f][0]:
            for base in [os.path.dirname(f)] + libs:
                c = canon(os.path.join(base, inc) if not inc.startswith("/") else inc[1:])
                if c in files:
                    todo.append(c)
                    break
            else:
                raise No("missing " + inc)
    return seen


def put(root, path, text):
    p = os.path.join(root, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)


def judge(root, key, expect, args, name="m.circom"):
    """expect: None (rejected) or the constant"""
    out = os.path.join(root, "out")
    os.makedirs(out, exist_ok=True)
    for x in os.listdir(out):
        os.unlink(os.path.join(out, x))
    r = circom.run(BIN, None, ["--r1cs", "--O0", "-o", "out"] + args, root, name=name)
    det = {"rc": r.rc, "stderr": r.err[-500:], "args": args}
    if expect is None:
        if r.rc != 1 or "error[" not in r.err or os.listdir(out):
            return [(key + ": not rejected", det)]
        return []
    if not r.ok:
        return [(key + ": rejected", det)]
    c = circom.read_r1cs(out + "/m.r1cs")
    vals = sorted({min(x, c.prime - x) for k in c.constraints for lc in k for x in lc.values()} - {1})
    if vals != [expect]:
        return [(key + ": another definition was used", {**det, "expected": expect, "observed": vals})]
    return []


def search_job(batch):
    """which x.circom is found: it exists in some of the directories; y.circom, elsewhere, includes it too"""
    bad, n = [], 0
    d = circom.scratch()
    try:
        for present, ypos, minc, yinc, libs, how in batch:
            root = d + "/%d" % n
            os.makedirs(root)
            n += 1
            files, texts, links = {}, {}, {}
            for i, dr in enumerate(DIRS):
                p = os.path.normpath(dr + "x.circom")
                if present >> i & 1:
                    files[p] = ([], 100 + i)
                    texts[p] = "pragma circom 2.1.0;\nfunction fx() { return %d; }\n" % (100 + i)
                elif how == "dir" and i == 1:
                    os.makedirs(os.path.join(root, p))  # a directory is not a file
                elif how == "link" and i == 3 and present & 7:
                    t = [q for k, q in enumerate(DIRS) if present >> k & 1][0] + "x.circom"
                    os.makedirs(os.path.join(root, dr), exist_ok=True)
                    os.symlink(os.path.relpath(os.path.join(root, t), os.path.join(root, dr)), os.path.join(root, p))
                    links[p] = os.path.normpath(t)
                os.makedirs(os.path.join(root, dr, "d"), exist_ok=True)
            yp = os.path.normpath(DIRS[ypos] + "y.circom")
            yi = [x.replace("ABS", root) for x in yinc]
            files[yp] = ([x[len(root):] if x.startswith(root) else x for x in yi], 0)
            texts[yp] = "pragma circom 2.1.0;\n" + "".join('include "%s";\n' % x for x in yi) + "function fy() { return 1; }\n"
            files["m.circom"] = (minc, 0)
            texts["m.circom"] = "pragma circom 2.1.0;\n" + "".join('include "%s";\n' % x for x in minc) + "template M() { signal input a; signal output o; o <== a * fx(); }\ncomponent main = M();\n"
            for p, t in texts.items():
                put(root, p, t)
            try:
                seen = closure(files, links, "m.circom", libs)
                vs = [files[f][1] for f in seen if files[f][1]]
                exp = vs[0] if len(vs) == 1 else None
            except No:
                exp = None
            args = [z for l in libs for z in ("-l", l)]
            bad += judge(root, "x in %s, y in %r, main includes %s, y includes %s, libraries %s %s" % ([DIRS[i] for i in range(4) if present >> i & 1], DIRS[ypos], minc, yinc, libs, how), exp, args)
            shutil.rmtree(root)
        return n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main_job(batch):
    """how many main components, in which of three files that include each other; the file given by several paths"""
    bad, n = [], 0
    d = circom.scratch()
    names = "mxy"
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j] + [(0, 0)]
    try:
        for e, mains, given in batch:
            edges = [q for k, q in enumerate(pairs) if e >> k & 1]
            reach, todo = set(), [0]
            while todo:
                i = todo.pop()
                if i not in reach:
                    reach.add(i)
                    todo += [b for a, b in edges if a == i]
            k = [i for i in sorted(reach) if mains >> i & 1]
            # the main component of each file uses what all the files reached define
            root = d + "/%d" % n
            os.makedirs(root + "/s")
            n += 1
            for i in range(3):
                t = "pragma circom 2.1.0;\n" + "".join('include "%s.circom";\n' % names[j] for q, j in edges if q == i)
                t += "function f%d() { return %d; }\ntemplate M%d() { signal input a; signal output o; o <== a * (%s); }\n" % (i, 1 << i, i, "100 + " + " + ".join("f%d()" % j for j in sorted(reach)))
                if i not in reach:
                    t = "this is not a program"
                if mains >> i & 1:
                    t += "component main = M%d();\n" % i
                put(root, names[i] + ".circom", t)
            os.symlink("../m.circom", root + "/s/m.circom")
            exp = 100 + sum(1 << j for j in reach) if len(k) == 1 else None
            name = {"plain": "m.circom", "dot": "./m.circom", "abs": root + "/m.circom", "up": "s/../m.circom"}[given]
            bad += judge(root, "includes %s, mains %s, %s" % ([(names[i], names[j]) for i, j in edges], [names[i] for i in range(3) if mains >> i & 1], given), exp, [], name=name)
            shutil.rmtree(root)
        return n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


DEFS = {
    "template": "template D() { signal input a; signal output o; o <== a * 100; }\n",
    "function": "function D() { return 100; }\n",
    "bus": "bus D { signal a; }\n",
    "other": "function E() { return 100; }\n",
}


def dup_job(batch):
    """two definitions of one name"""
    bad, n = [], 0
    d = circom.scratch()
    try:
        for k1, k2, where, swap in batch:
            root = d + "/%d" % n
            os.makedirs(root)
            n += 1
            a, b = DEFS[k1], DEFS[k2]
            if k1 == k2 == "function" and where == "order":
                a = a.replace("100", "7")
            fs = {"same": {"m": a + b}, "inc": {"m": a, "x": b}, "two": {"m": "", "x": a, "y": b}, "order": {"m": "", "x": b, "y": a}, "once": {"m": "", "x": a, "y": "include \"x.circom\";\n", "z": b}}[where]
            for q, t in fs.items():
                inc = "".join('include "%s.circom";\n' % o for o in (reversed(list(fs)) if swap else fs) if q == "m" and o != "m")
                put(root, q + ".circom", "pragma circom 2.1.0;\n" + inc + t + ("template M() { signal input a; signal output o; o <== a * 100; }\ncomponent main = M();\n" if q == "m" else ""))
            exp = 100 if "other" in (k1, k2) and k1 != k2 else None
            bad += judge(root, "definitions %s %s %s %s" % (k1, k2, where, swap), exp, [])
            shutil.rmtree(root)
        return n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def version_job(batch):
    bad, n = [], 0
    d = circom.scratch()
    try:
        for v, where, ok in batch:
            root = d + "/%d" % n
            os.makedirs(root)
            n += 1
            pr = ["pragma circom 2.0.0;\n"] * 3
            pr[where] = "" if v is None else "pragma circom %d.%d.%d;\n" % v
            put(root, "m.circom", pr[0] + 'include "x.circom";\ntemplate M() { signal input a; signal output o; o <== a * fx(); }\ncomponent main = M();\n')
            put(root, "x.circom", pr[1] + 'include "y.circom";\n')
            put(root, "y.circom", pr[2] + "function fx() { return 100; }\n")
            bad += judge(root, "version %s in file %d" % (v, where), 100 if ok else None, [])
            shutil.rmtree(root)
        return n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def call(a):
    return (a[0],) + globals()[a[0]](a[1])


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def main():
    global BIN
    ck = Check("C27")
    BIN = build.circom()
    libs = [[], ["l1"], ["l2"], ["l1", "l2"], ["l2", "l1"]] + ([["d"], ["d", "l2"], ["l1", "d", "l2"]] if ck.thorough else [])
    incs = []
    for ypos in range(4):
        y = DIRS[ypos] + "y.circom"
        for yinc in ([], ["x.circom"], ["d/x.circom"], ["../x.circom"], ["./x.circom"], ["ABS/x.circom"]):
            for minc in ([y], ["x.circom", y], ["y.circom"], [y, "x.circom"], [y, "d/../x.circom"], [y, y]):
                incs.append((ypos, minc, yinc))
    search = [(pr, y, m, yi, l, "plain") for pr in range(16) for y, m, yi in incs for l in libs if ck.thorough or (pr + len(l) + len(m)) % 3 == 0 or not yi]
    search += [(pr, y, m, yi, l, h) for h in ("dir", "link") for pr in range(16) for y, m, yi in incs if yi in (["x.circom"], ["d/x.circom"]) for l in libs[-2:]]
    search = [s for s in search if not (s[5] == "link" and (s[0] >> 3 & 1)) and not (s[5] == "dir" and s[0] >> 1 & 1)]
    mains = [(e, k, "plain") for e in range(128) for k in range(8)] + [(e, 1, g) for e in range(128) for g in ("dot", "abs", "up")]
    dups = [(a, b, w, s) for a in DEFS for b in DEFS for w in ("same", "inc", "two", "order", "once") for s in (0, 1) if not (a == b == "other")]
    out = circom.run(BIN, None, ["--version"], circom.scratch(), name="x").out + " "
    cur = tuple(int(x) for x in out.split()[2].split(".")) if len(out.split()) > 2 else None
    vs = {None}
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            for c in (-1, 0, 1, 5):
                v = (cur[0] + a, cur[1] + b, cur[2] + c)
                if min(v) >= 0:
                    vs.add(v)
    vs |= {(2, 0, 0), (2, 0, 99), (2, cur[1], 0), (0, 5, 46), (2, cur[1] + 1, 0), (3, 0, 0), (20, 0, 0), (2, 0, cur[2] + 10), (2, 10, 0), (2, cur[1], 10 * cur[2] + 10)}
    versions = [(v, w, v is None or (v[0] == cur[0] and v[1:] <= cur[1:])) for v in sorted(vs, key=str) for w in range(3)]
    jobs = [("search_job", c) for c in chunks(search, 60)] + [("main_job", c) for c in chunks(mains, 60)] + [("dup_job", c) for c in chunks(dups, 20)] + [("version_job", c) for c in chunks(versions, 20)]
    for f, n, bad in pmap(call, jobs):
        ck.add(**{f[:-4] + "_cases": n, "states": n, "transitions": n, "traces_validated_against_impl": n})
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["rule"] = "a state is a tree of files with its includes, libraries and options; each one is a compilation of the real files compared with the model of the search (a trace)"
    ck.sample({"search": list(search[0])})
    ck.finish()
