"""Compiling and running the emitted C++ witness generator. The run-time objects (main, calcwit, fr, fr_asm) are
cached by the content of the files that circom emitted, so a change in any of them is rebuilt."""
import hashlib, os, re, subprocess
from .build import BUILD, lock

CFLAGS = ["-std=c++11", "-O1", "-I."]


class CxxError(Exception):
    pass


def _sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CxxError(" ".join(cmd) + "\n" + r.stdout.decode("utf-8", "replace")[-3000:])


def _obj(d, src, headers, cmd):
    h = hashlib.sha256(" ".join(cmd).encode())
    for f in [src] + headers:
        h.update(b"\0" + f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    cache = os.path.join(BUILD, "cxxobj")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, h.hexdigest() + ".o")
    if not os.path.exists(out):
        with lock("cxx-" + h.hexdigest()[:12]):
            if not os.path.exists(out):
                tmp = out + ".tmp%d" % os.getpid()
                _sh(cmd + ["-o", tmp, src], d)
                os.rename(tmp, out)
    return out


def build(dirname, name, flags=None, parallel=False):
    """Returns the path of the executable built from <name>_cpp."""
    d = os.path.join(dirname, name + "_cpp")
    hdr = sorted(f for f in os.listdir(d) if f.endswith(".hpp"))
    flags = CFLAGS if flags is None else flags
    objs = []
    skip = set()
    for line in open(os.path.join(d, "Makefile")):
        if line.startswith("EXTRA_FILES"):
            skip |= set(line.split("=", 1)[1].split())
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp") and f != name + ".cpp" and f not in skip:
            objs.append(_obj(d, f, hdr, ["g++", "-c", *[x if x != "-O1" else "-O2" for x in flags]]))
        elif f.endswith(".asm"):
            objs.append(_obj(d, f, [], ["nasm", "-felf64"]))
    _sh(["g++", "-c", name + ".cpp", *flags, "-o", name + ".o"], d)
    _sh(["g++", "-o", name, name + ".o", *objs, "-lgmp", "-pthread"], d)
    return os.path.join(d, name)


SCHED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sched", "cxx")


def build_sched(dirname, name):
    """As build, with the threads, mutexes and condition variables replaced by those of the controlled scheduler."""
    d = os.path.join(dirname, name + "_cpp")
    small = False
    for f in os.listdir(d):
        if f.endswith((".hpp", ".cpp")):
            t = open(os.path.join(d, f)).read()
            n, k = re.subn(r"(#define\s+NMUTEXES\s+)\d+", r"\1 vp_max_threads()", t)
            if k:
                small = True
                open(os.path.join(d, f), "w").write(n)
    hdr = sorted(f for f in os.listdir(d) if f.endswith(".hpp"))
    ver = hashlib.sha256(open(SCHED + "/vp_sched.hpp", "rb").read()).hexdigest()[:12]
    flags = ["-std=c++11", "-O1", "-I.", "-include", SCHED + "/vp_sched.hpp", "-DVP_VER=" + ver]
    objs = []
    skip = set()
    for line in open(os.path.join(d, "Makefile")):
        if line.startswith("EXTRA_FILES"):
            skip |= set(line.split("=", 1)[1].split())
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp") and f != name + ".cpp" and f not in skip:
            objs.append(_obj(d, f, hdr, ["g++", "-c", *flags]))
        elif f.endswith(".asm"):
            objs.append(_obj(d, f, [], ["nasm", "-felf64"]))
    # (main has to stay main for the compiler: only it may end without a return)
    ren = []
    for i, o in enumerate(objs):
        ren.append(os.path.join(d, "vp%d.o" % i))
        _sh(["objcopy", "--redefine-sym", "main=emitted_main", o, ren[-1]], d)
    objs = ren
    objs.append(_obj(SCHED, "vp_sched.cpp", ["vp_sched.hpp"], ["g++", "-c", "-std=c++11", "-O2"]))
    _sh(["g++", "-c", name + ".cpp", *flags, "-o", name + ".o"], d)
    _sh(["g++", "-o", name, name + ".o", *objs, "-lgmp", "-pthread"], d)
    return os.path.join(d, name), small


def run(exe, infile, outfile, timeout=60, env=None):
    try:
        r = subprocess.run([exe, infile, outfile], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return None, "", "timeout"
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
