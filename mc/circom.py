"""Running the circom binary and reading what it writes (readers are independent of /repo's code)."""
import functools, json, os, re, shutil, struct, subprocess, tempfile

ANSI = re.compile(r"\x1b\[[0-9;]*m")
PRIMES = {
    "bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bls12377": 8444461749428370424248824938781546531375899335154063827935233455917409239041,
    "bls12381": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "goldilocks": 18446744069414584321,
    "grumpkin": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "pallas": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
    "vesta": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
    "secq256r1": 115792089210356248762697446949407573530086143415290314195533631308867097853951,
}


def prime_of(name):
    return PRIMES[name] if name in PRIMES else int(name[2:])


class Run:
    __slots__ = ("rc", "out", "err", "dir")

    @property
    def ok(self):
        return self.rc == 0

    @property
    def panicked(self):
        return "panicked at" in self.err or (self.rc is not None and self.rc not in (0, 1))

    @property
    def text(self):
        return self.out + self.err


def scratch(prefix="vp"):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def run(binary, src, args=(), workdir=None, name="m.circom", timeout=60, env=None, files=None):
    """Writes src (text) as workdir/name and compiles it there with outputs in workdir."""
    r = Run()
    r.dir = workdir
    for fn, txt in (files or {}).items():
        p = os.path.join(workdir, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(txt)
    if src is not None:
        with open(os.path.join(workdir, name), "w") as f:
            f.write(src)
    if os.environ.get("VERIF_TIER") != "thorough":
        timeout = min(timeout, 150)     # the programs of the quick checks take well under 10 s
    try:
        p = subprocess.run([binary, name, *args], cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        r.rc = p.returncode
        r.out = ANSI.sub("", p.stdout.decode("utf-8", "replace"))
        r.err = ANSI.sub("", p.stderr.decode("utf-8", "replace"))
    except subprocess.TimeoutExpired:
        raise FormatError("circom did not finish in %d s" % timeout)
    return r


class R1CS:
    """constraints: list of (A, B, C), each {wire: coefficient}; wire 0 is the constant one."""


class FormatError(Exception):
    """an output that is missing or cannot be read: a violation of the property being checked"""


def reader(f):
    @functools.wraps(f)
    def g(path):
        try:
            return f(path)
        except (struct.error, IndexError, ValueError, FileNotFoundError, UnicodeDecodeError) as e:
            raise FormatError("%s: %s" % (os.path.basename(path), e))
    return g


@reader
def read_r1cs(path):
    b = open(path, "rb").read()

    def need(c, m):
        if not c:
            raise FormatError(m)

    need(len(b) >= 12 and b[:4] == b"r1cs", "magic")
    ver, nsec = struct.unpack_from("<II", b, 4)
    need(ver == 1, "version")
    pos, secs, order = 12, {}, []
    for _ in range(nsec):
        need(pos + 12 <= len(b), "truncated section header")
        t, ln = struct.unpack_from("<IQ", b, pos)
        pos += 12
        need(pos + ln <= len(b), "truncated section")
        need(t not in secs, "duplicate section")
        secs[t] = b[pos:pos + ln]
        order.append(t)
        pos += ln
    need(pos == len(b), "trailing bytes")
    need(1 in secs and 2 in secs and 3 in secs, "missing section")
    h = secs[1]
    fs, = struct.unpack_from("<I", h, 0)
    need(fs % 8 == 0 and fs > 0, "field size")
    need(len(h) == 4 + fs + 4 * 4 + 8 + 4, "header size")
    c = R1CS()
    c.field_size = fs
    c.prime = int.from_bytes(h[4:4 + fs], "little")
    c.n_wires, c.n_pub_out, c.n_pub_in, c.n_prv_in = struct.unpack_from("<IIII", h, 4 + fs)
    c.n_labels, = struct.unpack_from("<Q", h, 4 + fs + 16)
    c.n_constraints, = struct.unpack_from("<I", h, 4 + fs + 24)
    c.sections = order
    c.raw = secs
    c.constraints = []
    s, p = secs[2], 0

    def lc(p):
        need(p + 4 <= len(s), "lc header")
        n, = struct.unpack_from("<I", s, p)
        p += 4
        d = {}
        last = -1
        for _ in range(n):
            need(p + 4 + fs <= len(s), "lc term")
            w, = struct.unpack_from("<I", s, p)
            v = int.from_bytes(s[p + 4:p + 4 + fs], "little")
            need(w not in d, "wire twice in a linear combination")
            need(w < c.n_wires, "wire out of range")
            need(v < c.prime, "coefficient not reduced")
            d[w] = v
            p += 4 + fs
        return d, p

    for _ in range(c.n_constraints):
        A, p = lc(p)
        B, p = lc(p)
        C, p = lc(p)
        c.constraints.append((A, B, C))
    need(p == len(s), "constraint section size")
    w = secs[3]
    need(len(w) == 8 * c.n_wires, "wire2label size")
    c.labels = list(struct.unpack("<%dQ" % c.n_wires, w))
    return c


@reader
def read_sym(path):
    """[(label, wire, component, name)]"""
    out = []
    for line in open(path).read().splitlines():
        a = line.split(",", 3)
        out.append((int(a[0]), int(a[1]), int(a[2]), a[3]))
    return out


def ev(lc, w, p):
    return sum(v * w[k] for k, v in lc.items()) % p


def satisfied(c, w):
    p = c.prime
    for i, (A, B, C) in enumerate(c.constraints):
        if (ev(A, w, p) * ev(B, w, p) - ev(C, w, p)) % p:
            return i
    return None


@reader
def read_wtns(path):
    b = open(path, "rb").read()
    if b[:4] != b"wtns":
        raise FormatError("wtns magic")
    ver, nsec = struct.unpack_from("<II", b, 4)
    if ver != 2 or nsec != 2:
        raise FormatError("wtns version/sections")
    t, ln = struct.unpack_from("<IQ", b, 12)
    n8, = struct.unpack_from("<I", b, 24)
    if t != 1 or ln != 8 + n8:
        raise FormatError("wtns header section")
    prime = int.from_bytes(b[28:28 + n8], "little")
    n, = struct.unpack_from("<I", b, 28 + n8)
    p = 32 + n8
    t, ln = struct.unpack_from("<IQ", b, p)
    if t != 2 or ln != n * n8 or len(b) != p + 12 + ln:
        raise FormatError("wtns data section")
    p += 12
    return prime, [int.from_bytes(b[p + i * n8:p + (i + 1) * n8], "little") for i in range(n)]
