#!/usr/bin/env python3
"""check.py ID: decides property ID for /repo's working tree.

Exit 0: it held on everything explored. Exit 1 and a line
"VIOLATION property=ID replay=PATH": it is broken. Exit 2: the check failed.
check.py --replay FILE runs the script of a replay file again.
"""
import hashlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from registry import CHECKS

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


def known_findings(pid):
    """Entries "finding: property=ID sig=SIGNATURE what fails" (fixed ones do
    not suppress anything)."""
    out = {}
    for line in open(os.path.join(core.VERIF, "KNOWN_FINDINGS")):
        if line.startswith("finding: property=%s " % pid):
            sig, what = line.split("sig=", 1)[1].split(" ", 1)
            out[sig] = what.strip()
    return out


LEAK = "memory was not released"


def signature(script):
    return hashlib.sha256(script.encode()).hexdigest()[:16]


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.work = core.Work()
        self.start = time.time()
        self.traces = self.events = self.states = 0
        self.distinct = set()
        self.samples = []
        self.parts = []
        self.violations = []
        self.known = known_findings(pid)
        self.model = {"states": 0, "transitions": 0}
        self.notes = {}
        self.seed, self.tier = SEED, TIER
        self._build = None

    @property
    def build(self):
        if self._build is None:
            self._build = core.build(self.work)
        return self._build

    def driver(self, module):
        """The program that runs scripts: a C++ driver, or one for the tools."""
        if module == "TraceQuic":
            return core.build_quic(self.build)
        if module == "TraceApp":
            return core.build_app(self.build)
        d = CHECKS[self.pid].get("driver")
        if d is None:
            return os.path.join(self.build, "driver")
        core.ENV["BNL_TOOLS"] = self.build
        core.ENV["TMPDIR"] = self.work.dir
        return os.path.join(core.VERIF, "harness", d)

    def left(self, budget):
        return budget - (time.time() - self.start)

    def rng(self, name, k=0):
        return random.Random("%d/%s/%s/%d" % (SEED, self.pid, name, k))

    def report(self, name, tid, script, events, pos, why, note, module):
        sig = signature(script)
        if sig in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[sig]))
            return
        d = os.path.join(core.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%s.json" % (self.pid, tid, sig))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "part": name, "module": module, "trace": tid, "why": why,
                       "event": pos, "rejected": events[pos - 1] if 0 < pos <= len(events) else None,
                       "script": script.split("\n"), "events": events, "note": note}, f, indent=1)
        self.violations.append((tid, why, path))

    def traces_part(self, name, scripts, module="Trace"):
        """Scripts run by the driver, traces judged by TLC."""
        scripts = list(scripts)
        by = dict(scripts)
        if len(by) != len(scripts):
            raise core.CheckError("duplicate trace ids in " + name)
        driver = self.driver(module)
        res = core.drive(driver, scripts)
        dead = any(ev and ev[-1]["o"] in ("crash", "hang") for ev, _ in res.values())
        if set(res) != set(by) and not dead:
            raise core.CheckError("traces are missing")
        rejected, states = core.validate(self.work, res, name, module,
                                         jobs=core.CORES, workers=1)
        self.account(name, [x for x in scripts if x[0] in res], res, states)
        if rejected:
            self.confirm(name, module, scripts, by, res, rejected)
        if not rejected:
            self.bind(name, res, module)
        return res

    def model_part(self, name, module, consts, invariants, properties=()):
        """A bounded model of the specification, checked exhaustively."""
        transitions, states, scripts = core.model_check(self.work, name, module, consts, invariants,
                                               properties)
        self.model["states"] += states
        self.model["transitions"] += transitions
        self.parts.append({"part": name, "model": module, "constants": {
            c: sorted(v) if isinstance(v, (set, frozenset)) else v for c, v in consts.items()},
            "checked": list(invariants) + list(properties), "states": states,
            "transitions": transitions})
        return scripts

    def confirm(self, name, module, scripts, by, res, rejected):
        """Reports rejected traces that are rejected again when they are run again,
        after a first run in the same process (so that memory which the code
        keeps for good is not mistaken for a leak)."""
        driver = self.driver(module)
        shown, open_ids = 0, []
        for tid in sorted(rejected)[:12]:
            again = core.drive(driver, [("warm", by[tid]), (tid, by[tid])], 1)
            rej2 = {}
            if tid in again:
                rej2, _ = core.validate(self.work, {tid: again[tid]}, name + "-again", module, 1)
            if tid in rej2:
                pos, why = rej2[tid]
                self.report(name, tid, by[tid], again[tid][0], pos, why, again[tid][1], module)
                shown += 1
                if shown >= 3:
                    return
            elif rejected[tid][1] != LEAK:
                open_ids.append(tid)
        if shown or not open_ids:
            return
        # It may depend on what ran before in the process: once more, all of them.
        res2 = core.drive(driver, scripts)
        rej2, _ = core.validate(self.work, res2, name + "-all", module, jobs=core.CORES,
                                workers=1)
        both = sorted(set(rejected) & set(rej2))
        if not both:
            raise core.CheckError("trace %s of %s is rejected only sometimes" % (open_ids[0], name))
        for tid in both[:3]:
            pos, why = rej2[tid]
            self.report(name, tid, by[tid], res2[tid][0], pos, why, res2[tid][1], module)

    def account(self, name, scripts, res, states):
        n = sum(len(ev) for ev, _ in res.values())
        self.traces += len(res)
        self.events += n
        self.states += states
        for tid, s in scripts:
            # a trace is non-trivial when the code answered at least one call
            if len(res[tid][0]) > 1:
                self.distinct.add(signature(s))
        tid, s = scripts[len(scripts) // 2]
        if len(self.samples) < 6:
            self.samples.append({"part": name, "trace": tid, "script": s.split("\n")[:12],
                                 "recorded": [json.dumps(e)[:300] for e in res[tid][0][:6]]})
        self.parts.append({"part": name, "traces": len(res), "events": n})

    def bind(self, name, res, module):
        """Falsified recordings must be rejected, or the validation is vacuous."""
        r = self.rng("bind-" + name)
        ids = sorted(i for i, (ev, _) in res.items() if len(ev) > 2)
        bad = {}
        for i in r.sample(ids, min(len(ids), 40)):
            ev = json.loads(json.dumps(res[i][0]))
            if falsify(r, ev):
                bad[i] = (ev, "")
        if not bad:
            return
        rej, _ = core.validate(self.work, bad, name + "-bind", module, jobs=2, workers=1)
        d = self.notes.setdefault("falsified_recordings", {"made": 0, "rejected": 0})
        d["made"] += len(bad)
        d["rejected"] += len(rej)
        if 2 * len(rej) < len(bad):
            raise core.CheckError("only %d of %d falsified recordings of %s were rejected"
                                  % (len(rej), len(bad), name))

    def finish(self, level):
        if level == "model_checking":
            cov = {"states": self.model["states"], "transitions": self.model["transitions"],
                   "traces_validated_against_impl": self.traces,
                   "events_validated": self.events, "distinct_scripts": len(self.distinct)}
        else:
            cov = {"evaluations": self.events, "distinct_nontrivial": len(self.distinct),
                   "traces_validated_against_impl": self.traces,
                   "rule": "evaluations are recorded API calls judged by TLC against the "
                           "specification; they come from scripts generated from the seed; a "
                           "script counts once, if the code answered at least one of its calls"}
        cov["trace_states"] = self.states
        cov["samples"] = self.samples
        cov["parts"] = self.parts
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level,
              "coverage": cov, "assumptions": CHECKS[self.pid].get("assumptions", []),
              "wall_s": round(time.time() - self.start, 1), "violations": len(self.violations)}
        d = os.path.join(core.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


QUIC_FIELDS = {"ulogged": ("got",), "usent": ("d", "r"), "uwrite": ("d", "fin"), "uevent": ("d", "id", "fin", "kind"),
               "usubmit": ("d", "level"), "uprovide": ("d", "level"), "uretx": ("d",), "ukretx": ("d",),
               "uinstall": ("key", "iv"), "ussl": ("v",), "unc": ("local", "remote", "ts"),
               "uprotr": ("out",), "umaskr": ("out",), "utimers": ("timeout", "expires"),
               "uread": ("d", "ts"), "ucbcryptor": ("r",), "uexpired": ("r",), "upref": ("out",)}


APP_FIELDS = {"xdns": ("name",), "xconnect": ("addr", "port"), "xsend": ("d",), "uread": ("d", "ts"),
              "uwrite": ("d", "ts"), "upkt": ("ts",), "uloss": ("ts",), "uackdelay": ("ts",),
              "xdone": ("exit", "r", "timers"), "xend": ("code", "out", "fds", "sources"),
              "uinstall": ("key",), "usubmit": ("d",), "xaddtime": ("monotonic",), "xsocket": ("udp", "nonblock")}

VALUE_FIELDS = ("out", "err", "got", "v", "copy", "raw", "word", "text", "la", "lp", "pa", "pp", "name", "c",
                "size", "ssize", "ms", "hid", "hfin", "did", "empty", "all", "mv", "each", "first", "eq", "ne", "seq", "hn", "hv", "pn",
                "pv", "lower", "mid", "mfin", "mdata", "gid", "evalue", "etype", "isdata")


def falsify(r, ev):
    """Changes one thing that was observed."""
    app = any(e["o"] == "xmain" for e in ev)
    if app or any(e["o"] == "uclient" for e in ev):
        fields = APP_FIELDS if app else QUIC_FIELDS
        cand = [(k, f) for k, e in enumerate(ev) for f in fields.get(e["o"], ()) if f in e
                and (e["o"] != "ussl" or e["what"] != "client")
                and (f != "timers" or e[f] and not e["exit"]) and (f != "out" or e.get("code", 0) == 0)
                and (e["o"] != "usent" or e["r"] == "ok" or f == "r")]
        if not cand:
            return False
        kind = r.choice(sorted({(ev[k]["o"], f) for k, f in cand}))
        k, f = r.choice([c for c in cand if (ev[c[0]]["o"], c[1]) == kind])
        v = ev[k][f]
        if f == "code":
            ev[k][f] = 0 if v else 1
        elif f == "out" and app:    # the end of what is printed
            v[-1:] = [] if v else [7]
        elif f == "timers":         # one is not there
            del v[r.randrange(len(v)):]
        elif f == "got":
            if not v:
                return False
            v[-1]["d"].append(7)
        elif isinstance(v, bool):
            ev[k][f] = not v
        elif isinstance(v, int):
            ev[k][f] = v - 1
        elif isinstance(v, str):
            ev[k][f] = v + "x" if f != "level" else "initial" if v != "initial" else "handshake"
        elif v:
            j = r.randrange(len(v))
            v[j] = (v[j] + 1) % 256
        else:
            v.append(7)
        return True
    twins = [e for e in ev if e["o"] == "twin"]
    if twins:                       # in both, or in one of them
        if not falsify(r, [e["a"] for e in twins]):
            return False
        if r.random() < 0.5:
            for e in twins:
                e["b"] = e["a"]
        return True
    cand = []
    for k, e in enumerate(ev):
        if e["o"] == "lmsg" or e["o"][0] == "v" and e["o"] not in ("venc",):
            cand += [(k, f) for f in VALUE_FIELDS if f in e and e[f] != []]
            continue
        for f in ("r", "d", "v", "f", "t", "used", "buf", "raw", "size", "count", "all", "hs", "rest",
                  "id", "eq", "blocks", "out", "s", "len", "same"):
            if f in e and not (f == "t" and "ft" not in e and "what" not in e) \
               and not (e["o"] in ("recv", "body", "header", "venc", "penc", "bwrite", "hid", "rerr") and f in ("d", "v", "id")) \
               and not (e["o"] in ("bnew", "bslice", "bself", "bconsume", "bmove", "bdrop", "bconcat", "beq", "blook") and f in ("d", "s")) \
               and not (e["o"] in ("response",) and f == "id") \
               and not (e["o"] == "qifdec" and e["s"] != "ok") and not (e["o"] == "qifenc" and e["s"] != "ok") \
               and not (e["o"] in ("qe",) and f in ("v",)) \
               and not (e.get("r") in ("err",) and f == "r") and e["o"] != "end":
                cand.append((k, f))
    if not cand:
        return False
    k, f = r.choice(cand)
    e = ev[k]
    v = e[f]
    if f == "got":
        if r.random() < 0.5:
            e[f].append(e[f][0])
        else:
            e[f][0][r.choice(["text", "file", "func"])].append(7)
    elif e["o"] == "vheader" and f == "v":
        e["n"].append(7)
    elif f == "all" and e["o"] == "verrs":
        e[f][1]["code"] = 0
    elif f == "r":
        e[f] = "idle" if v == "ok" and e["o"] == "send" else "stream_closed" if v == "ok" else "ok" if e["o"] not in ("next",) else \
            ("finished" if v != "finished" else "none")
        if e[f] in ("finished", "ok"):
            e.setdefault("id", "0")
    elif isinstance(v, bool):
        e[f] = not v
    elif isinstance(v, int):
        e[f] = v + 1
    elif isinstance(v, str):
        e[f] = "998" if f == "id" else v + "x"
    elif isinstance(v, list):
        if f == "all" and v and isinstance(v[0], list):
            v[0][1] = v[0][1] + [7]
        elif v and isinstance(v[0], int):
            j = r.randrange(len(v))
            v[j] = (v[j] + 1) % 256
        else:
            v.append(7 if not v or isinstance(v[0], int) else v[0])
    return True


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        run = Run(d["property"])
        try:
            run.traces_part("replay", [(d["trace"], "\n".join(d["script"]))], d.get("module", "Trace"))
        finally:
            run.work.close()
        for _, why, path in run.violations:
            print("VIOLATION property=%s replay=%s (%s)" % (d["property"], path, why))
        return 1 if run.violations else 0
    pid = sys.argv[1]
    run = Run(pid)
    try:
        CHECKS[pid]["run"](run)
        run.finish(CHECKS[pid]["level"])
    finally:
        run.work.close()
    for tid, why, path in run.violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  trace %s: %s" % (tid, why))
    print("%s %s: %d traces, %d events, %d model states, %.0f s, %d violations"
          % (pid, TIER, run.traces, run.events, run.model["states"], time.time() - run.start,
             len(run.violations)))
    return 1 if run.violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except core.CheckError as e:
        print("CHECK ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
