"""Build the executor, run cases on the real code, validate the recorded
histories with TLC, write evidence, report."""
import glob
import json
import os
import re
import resource
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from .fitsfile import Dict80, File

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "fvh")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_TERM_COLOR="never")
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])


# ------------------------------------------------------------- executor
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Worker:
    def __init__(self, tmp):
        self.tmp = tmp
        self.p = None

    def start(self):
        self.p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, preexec_fn=_limits,
                                  env=dict(os.environ, FVH_TMP=self.tmp))
        self.buf = b""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def run(self, case, timeout):
        if self.p is None:
            self.start()
        line = (json.dumps(case) + "\n").encode()
        fdi, fdo = self.p.stdin.fileno(), self.p.stdout.fileno()
        os.set_blocking(fdi, False)
        end = time.time() + timeout
        off = 0
        try:
            while True:
                left = end - time.time()
                if left <= 0:
                    self.stop()
                    return [{"t": "hang"}]
                w = [fdi] if off < len(line) else []
                r, w, _ = select.select([fdo], w, [], left)
                if w:
                    try:
                        off += os.write(fdi, line[off:off + 65536])
                    except BlockingIOError:
                        pass
                if r:
                    b = os.read(fdo, 1 << 20)
                    if not b:
                        self.stop()
                        return [{"t": "crash"}]
                    self.buf += b
                    if b"\n" in b:
                        l, self.buf = self.buf.split(b"\n", 1)
                        return json.loads(l)["obs"]
        except BrokenPipeError:
            self.stop()
            return [{"t": "crash"}]


MAXDEAD = 12


def execute(cases, timeout=20.0):
    """run all cases, in JOBS processes; returns their observations in order.  After MAXDEAD hangs or
    crashes the rest is left out (None)."""
    out = [None] * len(cases)
    tmp = tempfile.mkdtemp(prefix="fvh-")
    it = iter(range(len(cases)))
    lock = threading.Lock()
    dead = 0

    def loop():
        nonlocal dead
        w = Worker(tmp)
        while True:
            with lock:
                i = next(it, None) if dead < MAXDEAD else None
            if i is None:
                break
            out[i] = w.run(cases[i], timeout)
            if out[i] and out[i][-1].get("t") in ("hang", "crash"):
                with lock:
                    dead += 1
        w.stop()

    try:
        ts = [threading.Thread(target=loop) for _ in range(JOBS)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ------------------------------------------------------------------ TLC
def java(args, env=None, timeout=800, mem="3g", cwd=SPEC, tmpdir=None):
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", f"-Xmx{mem}", "-Xss512m", f"-Djava.io.tmpdir={tmpdir or tempfile.gettempdir()}", "-cp", CP, "tlc2.TLC"] + args
    r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_counts(out):
    m = STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def big(n):
    v = []
    while n:
        v.append(n % 10000)
        n //= 10000
    return v


def codes(s):
    return [ord(c) for c in s]


def tlc_sub(s):
    s = dict(s)
    if s["k"] in ("rv", "skip"):
        s["n"] = big(s["n"])
    if s["k"] == "sel":
        s["c"] = [{"byname": isinstance(c, str), "nm": codes(c) if isinstance(c, str) else [],
                   "ix": 0 if isinstance(c, str) else min(c, 10 ** 9)} for c in s["c"]]
    if s["k"] == "seek":
        s["n"] = min(s["n"], 2 * 10 ** 9)
    return s


def tlc_ops(ops):
    r = []
    for o in ops:
        o = dict(o)
        if "sub" in o:
            o["sub"] = [tlc_sub(s) for s in o["sub"]]
        if "q" in o:
            o["q"] = [{"key": codes(x["key"]), "ty": x["ty"]} for x in o["q"]]
        if o["op"] == "avals":
            o.setdefault("skip", 0)
        if "names" in o:
            o["names"] = [codes(x) for x in o["names"]]
        r.append(o)
    return r


def validate(module, cases, obs, conv, mem="3g", timeout=800):
    """trace validation (each shard stops at its first mismatch): returns (list of (case index, step), states, transitions).
    conv(dict80, case, obs) makes the TLC record."""
    n = len(cases)
    if n == 0:
        return [], 0, 0
    # shards of similar weight
    order = sorted(range(n), key=lambda i: -len(json.dumps(obs[i])))
    shards = [[] for _ in range(min(JOBS, n))]
    for j, i in enumerate(order):
        shards[j % len(shards)].append(i)
    tmp = tempfile.mkdtemp(prefix="fvt-")

    def run(name, ix):
        """one TLC run over some of the histories -> mismatches, states, transitions, or the evaluation error"""
        d = Dict80()
        recs = []
        for i in ix:
            r = conv(d, cases[i], obs[i])
            r["id"] = i
            recs.append(r)
        path = os.path.join(tmp, f"s{name}.ndjson")
        with open(path, "w") as f:
            f.write(json.dumps({"dict": d.rows, "hint": d.hint}) + "\n")
            for r in recs:
                f.write(json.dumps(r) + "\n")
        meta = os.path.join(tmp, f"m{name}")
        rc, out = java(["-config", module + ".cfg", "-metadir", meta, "-workers", "1",
                        "-noGenerateSpecTE", module + ".tla"], {"CASES": path}, timeout, mem, tmpdir=tmp)
        if "StackOverflow" in out or "OutOfMemory" in out or "Java heap space" in out:
            raise ToolError(f"TLC ran out of resources on {module}:\n" + out[-3000:])
        if ("Model checking completed" not in out and "states generated" not in out) or "Error: Evaluating" in out or \
           "The error occurred when TLC was evaluating" in out or "TLC threw an unexpected exception" in out or "In evaluation" in out:
            return None, out
        bad = []
        for m in re.finditer(r'MISMATCH (\{.*\})', out):
            j = json.loads(m.group(1).replace('\\"', '"'))
            bad.append((j["id"], j["step"]))
        g, dis = tlc_counts(out)
        if "Invariant Conforms is violated" in out and not bad:
            raise ToolError(f"TLC: violation without a report on {module}:\n" + out[-2000:])
        return (bad, dis, g), out

    def one(k):
        r, out = run(k, shards[k])
        if r is not None:
            return r
        if run(f"{k}p", [])[0] is None:                # not even without histories
            raise ToolError(f"TLC failed on {module}:\n" + out[-3000:])
        # Some observation is not of a kind the specification can evaluate (it never is on behaviour
        # that conforms): find it, and count it as a mismatch.
        ix = shards[k]
        while len(ix) > 1:
            half = ix[:len(ix) // 2]
            if run(f"{k}b", half)[0] is not None:
                half = ix[len(ix) // 2:]
            ix = half
        r, out = run(f"{k}b", ix)
        if r is not None:
            raise ToolError(f"TLC evaluation error on {module}:\n" + out[-3000:])
        print("the specification cannot evaluate an observation: " +
              " ".join(l.strip() for l in out.splitlines() if l.startswith(("Error", "Attempted", "In eval")))[:300])
        return [(ix[0], len(obs[ix[0]]))], 0, 0

    try:
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, range(len(shards))))
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)
    bad = sorted({b for r in rs for b in r[0]})
    return bad, sum(r[1] for r in rs), sum(r[2] for r in rs)


def conv_sync(d, c, obs):
    f = d.encode(c["_f"])
    # gzip members of the file that the description of the file inflates for the specification
    f["inf"] = [{"at": big(at), "n": n, "raw": list(bytes.fromhex(raw))} for at, n, raw in c.get("inf", [])]
    return {"file": f, "ops": tlc_ops(c["ops"]), "obs": obs}


def strip(c):
    return {k: v for k, v in c.items() if not k.startswith("_")}


DOMS = {"sync": ("Trace_Sync", conv_sync), "async": ("Trace_Sync", conv_sync),
        "hook": ("Trace_Sync", conv_sync), "cli": ("Trace_Sync", conv_sync)}


def execute_sure(cases, timeout=20.0):
    """execute; a hang or crash only counts when it repeats with more time.
    -> the cases that were run, their observations"""
    obs = execute([strip(c) for c in cases], timeout)
    again = [i for i, o in enumerate(obs) if o and o[-1].get("t") in ("hang", "crash")]
    if again:
        o2 = execute([strip(cases[i]) for i in again], 3 * timeout)
        for i, o in zip(again, o2):
            obs[i] = o
        if all(o is not None and o[-1:] and o[-1].get("t") not in ("hang", "crash") for o in o2) and None in obs:
            left = [i for i, o in enumerate(obs) if o is None]       # a slow machine: run what was left out
            for i, o in zip(left, execute([strip(cases[i]) for i in left], 3 * timeout)):
                obs[i] = o
    ix = [i for i, o in enumerate(obs) if o is not None]
    return [cases[i] for i in ix], [obs[i] for i in ix]
