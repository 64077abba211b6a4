"""Builds the code under test, runs the driver on scripts, and has TLC decide
whether the recorded traces are behaviours of the specification."""
import json, os, re, shutil, subprocess, sys, tempfile, time, itertools, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
TLA = "/opt/veriftools/tla"
CORES = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not run: neither held nor violated."""


class Work:
    """A scratch directory that is removed afterwards."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="bnlcheck.")

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work, script="build.sh"):
    pre = os.environ.get("BNL_BUILD")          # for development only
    if pre:
        return pre
    out = work.path("build")
    p = subprocess.run([os.path.join(VERIF, "harness", script), out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise CheckError("build failed:\n" + p.stdout.decode(errors="replace")[-3000:])
    return out


def build_quic(out):
    """The QUIC client with its stand-ins; `out' holds the rest."""
    exe = os.path.join(out, "quicdriver")
    if not os.path.exists(exe):
        p = subprocess.run([os.path.join(VERIF, "harness", "buildquic.sh"), out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("build failed:\n" + p.stdout.decode(errors="replace")[-3000:])
    return exe


def build_app(out):
    """The client program with its stand-ins."""
    exe = os.path.join(out, "appdriver")
    if not os.path.exists(exe):
        build_quic(out)
        p = subprocess.run([os.path.join(VERIF, "harness", "buildapp.sh"), out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("build failed:\n" + p.stdout.decode(errors="replace")[-3000:])
    return exe


# ---------------------------------------------------------------------------
# The driver

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:"
           "allocator_may_return_null=1:max_allocation_size_mb=512",
           LC_ALL="C.UTF-8")


MAX_BAD = 6         # crashes per driver process pool; a hang counts three times


def drive_chunk(driver, scripts):
    """scripts: list of (id, text). Returns {id: (events, note)}. Gives up the
    remaining scripts after a few that the program did not survive."""
    res, bad = {}, 0
    todo = list(scripts)
    while todo and bad < MAX_BAD:
        text = "".join("T %s\n%s\nE\n" % (i, t) for i, t in todo)
        p = subprocess.Popen([driver], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=ENV)
        try:
            out, err = p.communicate(text.encode(), timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        cur, ev, seen = None, [], 0
        for line in out.decode("latin-1").split("\n"):
            if line.startswith("T "):
                cur, ev = line[2:], []
            elif line == "E":
                res[cur] = (ev, "")
                cur, seen = None, seen + 1
            elif line:
                if line[0] == ",":
                    line = line[1:]
                try:
                    ev.append(json.loads(line))
                except ValueError:
                    pass            # cut off by a crash
        if seen == len(todo):
            if p.returncode != 0:
                raise CheckError("driver failed: " + err.decode(errors="replace")[-2000:])
            break
        # it did not survive the trace number `seen'
        tid = todo[seen][0]
        if cur is not None and cur != tid:
            raise CheckError("driver lost its way")
        kind = "hang" if p.returncode in (-9, -14, -27) else "crash"
        if p.returncode == 0 or driver.endswith(".py"):
            raise CheckError("driver stopped early: " + err.decode(errors="replace")[-2000:])
        res[tid] = ((ev if cur is not None else []) + [{"o": kind}],
                    err.decode(errors="replace")[-4000:])
        todo = todo[seen + 1:]
        bad += 3 if kind == "hang" else 1
    return res


def drive(driver, scripts, jobs=CORES):
    scripts = list(scripts)
    parts = [scripts[k::jobs] for k in range(jobs)]
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda p: drive_chunk(driver, p), [p for p in parts if p]):
            res.update(r)
    return res


# ---------------------------------------------------------------------------
# TLC

def java(args, cwd, timeout, heap="3g", env=None):
    cp = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + cwd, "-cp", cp, "tlc2.TLC"] + args
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors="replace")


def copy_spec(d):
    os.makedirs(d, exist_ok=True)
    s = os.path.join(VERIF, "spec")
    for f in os.listdir(s):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(s, f), d)
    return d


REJ = re.compile(r'<<\s*"REJECTED",\s*"([^"]*)",\s*(-?\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)
STATES = re.compile(r"(\d+) states generated.*?, (\d+) distinct states found")


class NoAnswer(CheckError):
    """A recorded value is outside of what the specification can be asked about."""

    def __init__(self, text, trace, pos):
        CheckError.__init__(self, text)
        self.trace, self.pos = trace, pos


def tlc_traces(work, traces, name, module="Trace", workers=2, timeout=800, heap="3g"):
    """traces: list of (id, events). Returns (rejected {id: (pos, why)}, states)."""
    rejected, states, odd = {}, 0, 0
    while traces:
        try:
            r, s = tlc_once(work, traces, "%s-%d" % (name, odd), module, workers, timeout, heap)
            return dict(rejected, **r), states + s
        except NoAnswer as e:
            odd += 1
            if odd > 5:
                raise
            i, ev = traces[e.trace]
            rejected[i] = (min(e.pos, len(ev)), "the specification has no answer")
            traces = traces[:e.trace] + traces[e.trace + 1:]
    return rejected, states


def no_answer(out, traces):
    """Which trace made an evaluation fail, and at which event?"""
    if "StackOverflow" in out or "OutOfMemory" in out or "java.io" in out:
        return None
    k = out.find("The behavior up to this point is")
    t = [int(x) for x in re.findall(r"^/\\ t = (\d+)$", out[k:], re.M)] if k >= 0 else []
    l = [int(x) for x in re.findall(r"^/\\ l = (-?\d+)$", out[k:], re.M)] if k >= 0 else []
    if not t or not l or not 1 <= t[0] <= len(traces):
        return None
    return t[0] - 1, l[-1] + 1


def tlc_once(work, traces, name, module, workers, timeout, heap):
    d = copy_spec(work.path("tlc-" + name))
    f = os.path.join(d, "traces.ndjson")
    with open(f, "w") as h:
        for i, ev in traces:
            h.write(json.dumps({"id": i, "ev": ev}, separators=(",", ":")) + "\n")
    try:
        rc, out = java(["-config", module + ".cfg", "-workers", str(workers), "-lncheck",
                        "final", "-metadir", os.path.join(d, "meta"), module + ".tla"], d, timeout, heap,
                       dict(os.environ, TRACES=f))
    except subprocess.TimeoutExpired:
        raise CheckError("TLC: out of time")
    rejected = {m.group(1): (int(m.group(2)), m.group(3)) for m in REJ.finditer(out)}
    m = None
    for m in STATES.finditer(out):          # the last one is the final count
        pass
    if rc != 0 or "Model checking completed. No error has been found." not in out or not m:
        keep = os.environ.get("BNL_KEEP")
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
        why = "TLC failed:\n" + first_error(out) + out[-1500:]
        where = no_answer(out, traces)
        raise NoAnswer(why, *where) if where else CheckError(why)
    # every trace must have been consumed up to its end or its rejected event
    want = sum((rejected[i][0] if i in rejected else len(ev)) + 1 for i, ev in traces)
    if int(m.group(2)) != want:
        keep = os.environ.get("BNL_KEEP")
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
            open(os.path.join(keep, "out"), "w").write(out)
        raise CheckError("TLC visited %s states, not %d" % (m.group(2), want))
    shutil.rmtree(d, ignore_errors=True)
    return rejected, int(m.group(2))


def first_error(out):
    k = out.find("Error:")
    return out[k:k + 800] + "\n...\n" if k >= 0 else ""


def cost(ev):
    return 50 + sum(20 + len(json.dumps(e)) for e in ev)


def validate(work, results, name="v", module="Trace", jobs=4, workers=2, timeout=800):
    """results: {id: (events, note)}. Returns (rejected, states)."""
    items = sorted(((i, ev) for i, (ev, _) in results.items()), key=lambda x: -cost(x[1]))
    loads = [0] * jobs
    parts = [[] for _ in range(jobs)]
    for i, ev in items:
        k = loads.index(min(loads))
        parts[k].append((i, ev))
        loads[k] += cost(ev)
    parts = [p for p in parts if p]
    rejected, states = {}, 0
    with ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(tlc_traces, work, p, "%s%d" % (name, k), module, workers, timeout)
                for k, p in enumerate(parts)]
        for f in futs:
            r, s = f.result()
            rejected.update(r)
            states += s
    return rejected, states


# ---------------------------------------------------------------------------
# Bounded models

def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    return "{%s}" % ", ".join(tla(x) for x in sorted(v))


def config(consts, **lines):
    out = ["SPECIFICATION Spec", "CONSTANTS"]
    out += ["  %s = %s" % (k, tla(v)) for k, v in consts.items()]
    for k, v in lines.items():
        if v:
            out.append("%s %s" % (k, v if isinstance(v, str) else " ".join(v)))
    return "\n".join(out) + "\nCHECK_DEADLOCK FALSE\n"


def model_check(work, name, module, consts, invariants, properties=(), timeout=800):
    """Checks a model exhaustively. Returns (transitions, states, scripts)."""
    d = copy_spec(work.path("mc-" + name))
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write(config(consts, INVARIANTS=invariants, PROPERTIES=properties,
                       CONSTRAINTS="Show" if consts.get("Scripts") else ""))
    try:
        rc, out = java(["-config", "MC.cfg", "-workers", str(CORES), "-lncheck", "final",
                        "-metadir", os.path.join(d, "meta"), module + ".tla"], d, timeout, "6g")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC: out of time in the model " + name)
    m = None
    for m in STATES.finditer(out):
        pass
    if rc != 0 or "Model checking completed. No error has been found." not in out or not m:
        raise CheckError("the model %s does not hold:\n%s" % (name, first_error(out) + out[-1500:]))
    shutil.rmtree(d, ignore_errors=True)
    return int(m.group(1)), int(m.group(2)), printed(out)


def printed(out):
    return [json.loads(x.replace('\\"', '"').replace("\\\\", "\\"))
            for x in sorted(set(m.group(1) for m in SCRIPT.finditer(out)))]


SCRIPT = re.compile(r'^"SCRIPT (.*)"$', re.M)


def model_scripts(work, name, module, consts, seed, num, depth=100, timeout=800):
    """Random behaviours of a model, as lists of operations: `num' per worker."""
    d = copy_spec(work.path("sim-" + name))
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write(config(dict(consts, Scripts=True), CONSTRAINTS="Show"))
    sim = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    try:
        rc, out = java(["-config", "MC.cfg", "-workers", str(CORES)] + sim + [module + ".tla"],
                       d, timeout, "6g")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC: out of time simulating " + name)
    found = printed(out)
    if rc != 0 or not found:
        raise CheckError("no behaviours of the model %s:\n%s" % (name, first_error(out) + out[-1500:]))
    shutil.rmtree(d, ignore_errors=True)
    return found
