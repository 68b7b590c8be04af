"""Machinery shared by all checks: building the library, replaying scenarios on it, running TLC."""
import atexit
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv-pypy/bin/python"
TLA = "/opt/veriftools/tla"
CORES = min(8, os.cpu_count() or 8)

SCRATCH = tempfile.mkdtemp(prefix="sacf-verif-")
_procs = set()


def _cleanup():
    for p in list(_procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
    shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)


def _on_term(signum, frame):
    sys.exit(3)


signal.signal(signal.SIGTERM, _on_term)


class Broken(Exception):
    """the machinery failed: not a verdict"""


def run(cmd, timeout=None, env=None, cwd=None, out=None, limit=None):
    """subprocess in its own group, killed as a whole on timeout; returns (rc, output, timed out)"""
    full = dict(os.environ)
    full.update(env or {})

    def pre():
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    with open(out or os.devnull, "wb") if out else tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=full, cwd=cwd,
                             start_new_session=True, stdin=subprocess.DEVNULL, preexec_fn=pre)
        _procs.add(p)
        late = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        finally:
            _procs.discard(p)
        if out:
            return p.returncode, None, late
        f.seek(0)
        return p.returncode, f.read().decode("utf-8", "replace"), late


# ---------------------------------------------------------------- the library

VARIANTS = {
    "release": "",
    # out-of-bounds and stale memory accesses end the process instead of returning something plausible
    "hardened": "-fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR=1 -g -fno-omit-frame-pointer",
}


def build(variant):
    """builds /repo's working tree with its own setup.py in a scratch copy; returns the package's folder"""
    dst = os.path.join(SCRATCH, "lib-" + variant)
    shutil.copytree(REPO, dst, symlinks=True, ignore=lambda d, names: [
        n for n in names if n in (".git", "build", "__pycache__", "tests", "example") or n.endswith((".so", ".pyc"))])
    env = {"CXXFLAGS": "-I/usr/include/pypy3.9 -include /opt/vp/compat/pypy_compat.h " + VARIANTS[variant],
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": dst, "LANG": "C.UTF-8", "CMAKE_BUILD_PARALLEL_LEVEL": "4"}
    rc, text, late = run([PY, "setup.py", "build_ext", "--inplace"], timeout=600, env=env, cwd=dst)
    if rc != 0 or late:
        raise Broken("build (%s) failed:\n%s" % (variant, text[-3000:]))
    return dst


def driver_env(variant):
    env = {"PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8", "PYTHONHASHSEED": "0", "MALLOC_PERTURB_": "165",
           "OPENBLAS_NUM_THREADS": "1"}
    if variant == "hardened":
        # with libstdc++ there from the start, or throwing an exception would not find its way
        so = " ".join(os.path.realpath(subprocess.check_output(["g++", "-print-file-name=" + x], text=True).strip())
                      for x in ("libasan.so", "libstdc++.so.6"))
        env.update(LD_PRELOAD=so,
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3000:"
                                "handle_segv=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1")
        env.pop("MALLOC_PERTURB_")
    return env


STALL = 40          # seconds without progress that count as a hang


def _worker(pkg, variant, scenarios, tag, deaths_allowed=12, hangs_allowed=2):
    """runs scenarios one after another, restarting after each that ends or blocks the process (a few times: what is
    known by then is enough for a verdict, and waiting for further ones would only use up the time of the check)"""
    base = os.path.join(SCRATCH, "run-%s" % tag)
    scen, out, log = base + ".scen", base + ".out", base + ".log"
    with open(scen, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    open(out, "w").close()
    full = dict(os.environ)
    full.update(driver_env(variant))
    start, deaths, notes = 0, {}, {}
    while start < len(scenarios):
        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if variant == "release":
                resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        with open(log, "wb") as lf:
            p = subprocess.Popen([PY, os.path.join(VERIF, "tools", "driver.py"), pkg, scen, str(start), out],
                                 stdout=lf, stderr=subprocess.STDOUT, env=full, cwd=SCRATCH,
                                 start_new_session=True, stdin=subprocess.DEVNULL, preexec_fn=pre)
            _procs.add(p)
            size, since, how = -1, time.time(), None
            while p.poll() is None:
                try:
                    p.wait(0.2)
                except subprocess.TimeoutExpired:
                    pass
                now = os.path.getsize(out)
                if now != size:
                    size, since = now, time.time()
                elif time.time() - since > STALL:
                    how = "hang"
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            _procs.discard(p)
        last = None
        done = False
        with open(out) as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                try:
                    x = json.loads(line)
                except ValueError:
                    continue
                if x[0] == "begin":
                    last = x[1]
                elif x[0] == "done":
                    done = True
        if done:
            break
        text = open(log, errors="replace").read()
        if last is None or last < start:
            raise Broken("driver did not start (%s):\n%s" % (variant, text[-3000:]))
        deaths[last] = how or "crash"
        m = re.search(r"((?:ERROR: )?AddressSanitizer: [^\n]*|terminate called[^\n]*(?:\n[^\n]*)?|Segmentation fault|"
                      r"[^\n]*Error: [^\n]*)", text)
        notes[last] = m.group(1)[:300] if m else "exit status %s" % p.returncode
        # end the partial line, if any
        with open(out, "a") as f:
            f.write("\n")
        start = last + 1
        if len(deaths) >= deaths_allowed or sum(h == "hang" for h in deaths.values()) >= hangs_allowed:
            break
    traces, cur, idx = [], None, None

    def close():
        if cur is not None:
            for e in cur:
                e.setdefault("ret", deaths.get(idx, "crash"))
                e.setdefault("obs", {})
                if e["ret"] in ("crash", "hang"):
                    e["_note"] = notes.get(idx, "")
            traces.append({"id": scenarios[idx]["id"], "ops": cur})
    with open(out) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                x = json.loads(line)
            except ValueError:
                continue
            if x[0] == "begin":
                close()
                idx, cur = x[1], []
            elif x[0] == "op":
                cur.append(x[1])
            elif x[0] == "ret":
                cur[-1]["ret"], cur[-1]["obs"] = x[1], x[2]
            elif x[0] == "end":
                close()
                cur = None
    close()
    for x in (scen, out, log):
        os.unlink(x)
    return traces


def replay(pkg, variant, scenarios, workers=CORES):
    """all scenarios on one build of the library; returns id -> trace"""
    if not scenarios:
        return {}
    # interleave, so that expensive neighbours are spread
    chunks = [scenarios[i::workers] for i in range(workers)]
    chunks = [c for c in chunks if c]
    with cf.ThreadPoolExecutor(len(chunks)) as ex:
        parts = list(ex.map(lambda a: _worker(pkg, variant, a[1], "%s-%d" % (variant, a[0])), enumerate(chunks)))
    res = {}
    for p in parts:
        for t in p:
            res[t["id"]] = t
    return res


# ---------------------------------------------------------------- TLC

_java_dir = None
_java_lock = threading.Lock()


def java_classes():
    """Rat.java compiled against TLC"""
    global _java_dir
    with _java_lock:
        if _java_dir is None:
            d = os.path.join(SCRATCH, "classes")
            os.makedirs(d)
            rc, text, late = run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", d,
                                  os.path.join(SPEC, "Rat.java")], timeout=120)
            if rc != 0:
                raise Broken("javac: " + text)
            _java_dir = d
    return _java_dir


def tlc(module, config, env=None, workers=1, heap="3g", timeout=600, extra=(), tag=None, consts=None):
    """one TLC run on a copy of the specification; returns its output"""
    d = tempfile.mkdtemp(prefix="tlc-", dir=SCRATCH)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    if consts:
        p = os.path.join(d, config)
        text = open(p).read()
        for name, value in consts.items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % name, lambda m: m.group(1) + value, text)
            if n != 1:
                raise Broken("no constant %s in %s" % (name, config))
        open(p, "w").write(text)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-cp", ":".join([java_classes(), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "-Dtlc2.TLC.ide=none", "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
           "-workers", str(workers), "-config", config] + list(extra) + [module]
    out = os.path.join(d, "out.txt")
    rc, _, late = run(cmd, timeout=timeout, env=env, cwd=d, out=out)
    text = open(out, errors="replace").read()
    shutil.rmtree(d, ignore_errors=True)
    if late:
        raise Broken("TLC timed out on %s/%s" % (module, config))
    return rc, text


def counts(text):
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", text)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", text)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


FAIL = re.compile(r'^<<"FAIL", "((?:[^"\\]|\\.)*)", (\d+), "([^"]*)", \{([^}]*)\}>>$')


def _validate_shard(traces, tag, timeout):
    path = os.path.join(SCRATCH, "traces-%s.ndjson" % tag)
    with open(path, "w") as f:
        for t in traces:
            ops = [{k: v for k, v in e.items() if k != "_note"} for e in t["ops"]]
            f.write(json.dumps({"id": t["id"], "ops": ops}) + "\n")
    rc, text = tlc("Trace.tla", "Trace.cfg", env={"TRACES": path}, timeout=timeout, tag=tag)
    os.unlink(path)
    fails = []
    joined = re.sub(r"\n(?=\s+[^\s<])", " ", text)      # TLC wraps long tuples
    for line in joined.splitlines():
        line = re.sub(r"\s+", " ", line.strip())
        line = line.replace("<< ", "<<").replace(" >>", ">>").replace("{ ", "{").replace(" }", "}")
        m = FAIL.match(line)
        if m:
            fails.append((m.group(1), int(m.group(2)), m.group(3),
                          sorted(x.strip().strip('"') for x in m.group(4).split(",") if x.strip())))
    c = re.search(r'<<"CONSUMED", (\d+), (\d+), (\d+)>>', text)
    if rc != 0 or not c or len(re.findall(r'"FAIL"', text)) != len(fails):
        raise Broken("trace validation ended with %s:\n%s" % (rc, text[-4000:]))
    if int(c.group(1)) != int(c.group(2)) + int(c.group(3)):
        raise Broken("trace validation left calls out: " + c.group(0))
    gen, dist = counts(text)
    return fails, gen, dist


def weight(t):
    n = 1
    for e in t["ops"]:
        n += 1 + len(json.dumps(e)) // 200
    return n


def validate(traces, timeout=800, shards=CORES):
    """trace validation; returns (failures [(trace, call no, op, clauses)], states generated, distinct states)"""
    traces = list(traces)
    if not traces:
        return [], 0, 0
    order = sorted(traces, key=weight, reverse=True)
    bins = [[] for _ in range(min(shards, len(order)))]
    load = [0] * len(bins)
    for t in order:
        i = load.index(min(load))
        bins[i].append(t)
        load[i] += weight(t)
    java_classes()
    with cf.ThreadPoolExecutor(len(bins)) as ex:
        parts = list(ex.map(lambda a: _validate_shard(a[1], a[0], timeout), enumerate(bins)))
    fails = [f for p in parts for f in p[0]]
    return fails, sum(p[1] for p in parts), sum(p[2] for p in parts)
