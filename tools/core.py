"""Building, running and model checking."""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = ""
    return e


ARTIFACTS = {}


def build():
    """Builds the compiler, the runtime and the harness from the current tree of /repo."""
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--message-format=json-render-diagnostics"],
                       cwd=os.path.join(VERIF, "harness"), env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise ToolError("build failed:\n" + r.stderr[-4000:])
    for l in r.stdout.split("\n"):
        if l.startswith("{"):
            v = json.loads(l)
            if v.get("reason") == "compiler-artifact":
                for f in v["filenames"]:
                    if f.endswith(".rlib"):
                        ARTIFACTS[v["target"]["name"].replace("-", "_")] = f


def driver_path():
    return os.path.join(TARGET, "debug", "protoc-driver")


def limits(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgrp()
    return f


def run_lines(argv, timeout, mem_gb=6, cwd=None):
    """Runs a program, returns (lines of stdout, how it ended). It is killed after timeout seconds
    without a new line."""
    import selectors
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd,
                         preexec_fn=limits(mem_gb))
    sel = selectors.DefaultSelector()
    sel.register(p.stdout, selectors.EVENT_READ)
    data = bytearray()
    end = "ok"
    while True:
        if not sel.select(timeout):
            end = "timeout"
            os.killpg(p.pid, signal.SIGKILL)
            break
        chunk = os.read(p.stdout.fileno(), 1 << 20)
        if not chunk:
            break
        data += chunk
    rc = p.wait()
    if end == "ok" and rc != 0:
        end = "crash %d" % rc
    lines = data.decode("utf-8", "replace").split("\n")
    if lines and lines[-1] != "" and end != "ok":
        lines = lines[:-1]
    return [l for l in lines if l], end


def run_script(argv, count, timeout=20, mem_gb=6):
    """Runs `argv + [skip]`, which prints one JSON line per entry of a script of count entries, and
    resumes behind an entry which kills or hangs it. Returns one result per entry; None if lost."""
    results = {}
    skip = 0
    lost = {}
    while skip < count:
        lines, end = run_lines(argv + [str(skip)], timeout, mem_gb)
        last = skip - 1
        for l in lines:
            v = json.loads(l)
            results[v["i"]] = v["res"]
            last = max(last, v["i"])
        if end == "ok" and last < count - 1:
            raise ToolError("%s ended early" % argv[0])
        if end != "ok":
            lost[last + 1] = end
            last += 1
        skip = last + 1
        if len(lost) > 40:
            lost.update({i: "not run after many crashes" for i in range(skip, count)})
            break
    return [results.get(i) for i in range(count)], lost


# ---------------------------------------------------------------------------------------------
# TLC

class Tlc:
    def __init__(self, text, rc, wall):
        self.text, self.rc, self.wall = text, rc, wall
        # (lines of rejects can be huge)
        counts = [l for l in text.split("\n") if l[:1].isdigit() and "distinct states found" in l[:200]]
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", counts[-1]) if counts else None
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found." in text
        self.rejects = []
        self.exports = []
        for l in text.split("\n"):
            if l.startswith('"EXPORT '):
                self.exports.append(json.loads(json.loads(l)[7:]))
            if l.startswith('"REJECT '):
                # printed as a TLA+ string
                self.rejects.append(json.loads(json.loads(l)[7:]))

    def error(self):
        keep = [l for l in self.text.split("\n") if "REJECT" not in l and "EXPORT" not in l]
        return "\n".join(keep)[-3000:]


def tlc(module, work, cfg=None, variables=None, workers=None, timeout=800, mem="6g", extra=()):
    """Model checks spec/<module>.tla."""
    e = dict(os.environ)
    e.update(variables or {})
    meta = os.path.join(work, "tlc-%s-%d" % (cfg or module, time.monotonic_ns()))
    os.makedirs(meta)
    argv = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", TLA, "tlc2.TLC",
            "-workers", str(workers or CPUS), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
            "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(extra) + \
           [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        r = subprocess.run(argv, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError("TLC on %s timed out" % (cfg or module)) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(r.stdout.decode("utf-8", "replace"), r.returncode, time.time() - t)


def parallel(f, items, n=CPUS):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))
