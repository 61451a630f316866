import json, os, subprocess, atexit, select

HERE = os.path.dirname(os.path.abspath(__file__))
_w = {}


class WasmError(Exception):
    pass


def _worker():
    pid = os.getpid()
    w = _w.get(pid)
    if w is None or w.poll() is not None:
        w = subprocess.Popen(["node", "--stack-size=4000", os.path.join(HERE, "wasm_worker.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
        _w[pid] = w
    return w


def _kill():
    w = _w.pop(os.getpid(), None)
    if w:
        w.kill()
        w.wait()


atexit.register(_kill)


def witnesses(dirname, name, inputs, sanity=0, fresh=False, mode=None, timeout=60):
    """Runs the emitted <name>_js/<name>.wasm on every input; a list of {"w": [...]} or {"err": ...}, with "log"."""
    w = _worker()
    d = os.path.join(dirname, name + "_js")
    req = {"js": os.path.join(d, "witness_calculator.js"), "wasm": os.path.join(d, name + ".wasm"), "inputs": inputs, "sanity": sanity, "fresh": fresh, "mode": mode}
    w.stdin.write(json.dumps(req) + "\n")
    w.stdin.flush()
    if os.environ.get("VERIF_TIER") != "thorough":
        timeout = min(timeout, 150)
    r, _, _ = select.select([w.stdout], [], [], timeout)
    if not r:
        _kill()
        raise WasmError("the generator did not finish in %d s" % timeout)
    line = w.stdout.readline()
    if not line:
        _kill()
        raise WasmError("node worker died")
    rep = json.loads(line)
    if "err" in rep:
        return [{"err": rep["err"], "log": []} for _ in inputs]
    for x in rep["results"]:
        if "w" in x:
            x["w"] = [int(v) for v in x["w"]]
        if "wtns" in x:
            x["wtns"] = bytes.fromhex(x["wtns"])
    return rep["results"]
