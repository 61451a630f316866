"""Helpers of the demonstrations: they compile circuits with ./target/debug/circom (cwd is the repository) in a scratch directory."""
import atexit, json, os, shutil, struct, subprocess, sys, tempfile
CIRCOM = os.path.abspath("target/debug/circom")
DIR = tempfile.mkdtemp()
atexit.register(shutil.rmtree, DIR, True)


def circom(src, *args, name="m.circom", timeout=120, files=None):
    for n, t in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(DIR, n)), exist_ok=True)
        open(os.path.join(DIR, n), "w").write(t)
    if src is not None:
        open(os.path.join(DIR, name), "w").write(src)
    return subprocess.run([CIRCOM, name, *args], cwd=DIR, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def r1cs(name="m.r1cs"):
    """(prime, n_wires, constraints)"""
    b = open(os.path.join(DIR, name), "rb").read()
    n, = struct.unpack_from("<I", b, 8)
    pos, s = 12, {}
    for _ in range(n):
        t, l = struct.unpack_from("<IQ", b, pos)
        s[t] = b[pos + 12:pos + 12 + l]
        pos += 12 + l
    fs, = struct.unpack_from("<I", s[1], 0)
    p = int.from_bytes(s[1][4:4 + fs], "little")
    wires, = struct.unpack_from("<I", s[1], 4 + fs)
    nc, = struct.unpack_from("<I", s[1], 4 + fs + 24)
    d, q, out = s[2], 0, []
    for _ in range(nc):
        k = []
        for _ in range(3):
            m, = struct.unpack_from("<I", d, q)
            q += 4
            lc = {}
            for _ in range(m):
                w, = struct.unpack_from("<I", d, q)
                lc[w] = int.from_bytes(d[q + 4:q + 4 + fs], "little")
                q += 4 + fs
            k.append(lc)
        out.append(k)
    return p, wires, out


def wtns(path):
    b = open(path, "rb").read()
    n8, = struct.unpack_from("<I", b, 24)
    n, = struct.unpack_from("<I", b, 28 + n8)
    q = 32 + n8 + 12
    return [int.from_bytes(b[q + i * n8:q + (i + 1) * n8], "little") for i in range(n)]


def wasm(inputs, name="m"):
    """the witness, or None and the message"""
    d = os.path.join(DIR, name + "_js")
    json.dump(inputs, open(os.path.join(DIR, "in.json"), "w"))
    r = subprocess.run(["node", d + "/generate_witness.js", d + "/" + name + ".wasm", DIR + "/in.json", DIR + "/w.wtns"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if r.returncode:
        return None, r.stdout
    return wtns(DIR + "/w.wtns"), r.stdout


def cxx(inputs, name="m"):
    d = os.path.join(DIR, name + "_cpp")
    m = subprocess.run(["make", "-s", "-j4", "CFLAGS=-std=c++11 -O1 -I."], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if m.returncode:
        return None, m.stdout
    json.dump(inputs, open(os.path.join(DIR, "in.json"), "w"))
    r = subprocess.run([d + "/" + name, DIR + "/in.json", DIR + "/w.wtns"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if r.returncode:
        return None, r.stdout
    return wtns(DIR + "/w.wtns"), r.stdout


def sym(name="m.sym"):
    """{signal name: wire}"""
    return {l.split(",", 3)[3]: int(l.split(",")[1]) for l in open(os.path.join(DIR, name)).read().splitlines()}


def satisfied(p, cons, w):
    ev = lambda lc: sum(c * w[k] for k, c in lc.items()) % p
    return all((ev(a) * ev(b) - ev(c)) % p == 0 for a, b, c in cons)


def check(ok, msg):
    if not ok:
        print("FAILED:", msg)
        sys.exit(1)
