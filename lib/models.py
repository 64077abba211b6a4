"""Bounded models: what is checked, and how their behaviours become scripts."""
import core, gens, quicgens

REQUEST_TOKENS, CONTROL_TOKENS = range(1, 19), range(1, 18)
VALID = {1, 2, 3, 4, 5, 6, 7}


def hx(d):
    return "".join("%02x" % b for b in d) or "-"


def recv_script(d):
    kind, g = d["kind"], 1
    if kind in ("server", "cserver"):
        s = ["server 1"]
    else:
        s = ["client 1", "request 1 11", "h header 11 3a6d6574686f64 474554", "h start 11", "flush 1"]
    sid = {"server": 0, "client": 0, "cserver": 2, "cclient": 3}[kind]
    for op in d["ops"]:
        if op[0] == "recv":
            s.append("recv 1 1 %d %d %s" % (sid, op[2], hx(op[1])))
        elif s[-1][0] in "rn":               # something was received before
            s.append("next 1")
    s.append("drain 1")
    return "\n".join(s)


def system_script(d):
    s = ["client 1", "server 2"]
    slot = {}

    def h(k, i):
        return 10 * k + int(i) // 4

    def g(k, i):
        return slot.setdefault((k, i), len(slot) + 1)
    for op in d["ops"]:
        o = op[0]
        if o == "request":
            s.append("request 1 %d" % h(1, op[1]))
        elif o == "response":
            s.append("response 2 %s %d" % (op[1], h(2, op[1])))
        elif o == "header":
            s.append("h header %d %s %s" % (h(op[1], op[2]), hx(op[3][0]), hx(op[3][1])))
        elif o == "body":
            s.append("h body %d %s" % (h(op[1], op[2]), hx(op[3])))
        elif o in ("start", "fin"):
            s.append("h %s %d" % (o, h(op[1], op[2])))
        elif o == "send":
            s.append("send %d" % op[1])
        elif o == "deliver":
            s.append("dlv %d %s %d 1 %d %d" % (op[1], op[2], op[3], 3 - op[1], g(3 - op[1], op[2])))
        elif o == "next":
            s.append("next %d" % g(op[1], op[2]))
    # whatever the model's chunks and those of the implementation do not share
    for k in (1, 2):
        s.append("flush %d" % k)
        for i in ("2", "3", "0", "4", "8"):
            if (3 - k, i) in slot:
                s += ["dlv %d %s -1 1 %d %d" % (k, i, 3 - k, slot[3 - k, i]),
                      "drain %d" % slot[3 - k, i]]
    return "\n".join(s)


RECV = ["Receptive", "Sound", "Complete"]
SYSTEM = ["Intact", "NoErrors", "Streams", "Handles", "SettingsFirst", "Receptive", "Complete"]


def seed(run, name):
    return run.rng(name).randrange(2 ** 30)


def recv(name, kinds, quick, thorough, sim=60, properties=()):
    """Lists of (tokens, their number, bytes cut off); the behaviours use the tokens of the first."""
    def run(run):
        configs = thorough if run.tier == "thorough" else quick
        use, _, cut = configs[0]
        for kind in kinds:
            for k, (u, n, c) in enumerate(configs):
                run.model_part("%s-%s-%d" % (name, kind, k), "MC_Recv",
                               dict(Kind=kind, Use=set(u), N=n, Cut=c, Scripts=False), RECV, properties)
        scripts = []
        for kind in kinds:
            for d in core.model_scripts(run.work, name, "MC_Recv",
                                        dict(Kind=kind, Use=set(use), N=3, Cut=3), seed(run, name),
                                        sim * (5 if run.tier == "thorough" else 1)):
                scripts.append(("%s-%s-%d" % (name, kind, len(scripts)), recv_script(d)))
        run.traces_part(name + "-behaviours", scripts)
    return run


def system(name, quick, thorough, sim=20, live=(), gen=None):
    """`live': configurations in which every message must arrive."""
    def run(run):
        t = run.tier == "thorough"
        for k, c in enumerate(live):
            run.model_part("%s-live-%d" % (name, k), "MC_System", dict(c, Scripts=False), [], ["Arrives"])
        for k, c in enumerate(thorough if t else quick):
            run.model_part("%s-%d" % (name, k), "MC_System", dict(c, Scripts=False), SYSTEM)
        scripts = []
        for c in gen or (dict(Requests=2, Headers=2, Bodies=2, Partial=True, Whole=False, Settings=True),):
            for d in core.model_scripts(run.work, name, "MC_System", c, seed(run, name),
                                        sim * (5 if t else 1), 400):
                scripts.append(("%s-%d" % (name, len(scripts)), system_script(d)))
        run.traces_part(name + "-behaviours", scripts)
    return run


# ---------------------------------------------------------------------------
# Codecs, buffers, chains

def num(w):
    return int("".join("%02x" % b for b in w), 16)


def codec_ops(r, what, p, d):
    """Decoding a string of the model, and encoding what it stands for."""
    s, ok, v = bytes(d["s"]), d["r"] == "ok", d["v"]
    if what == "line":
        yield "qdb 0000" + s.hex()
        if ok:
            yield "qe %d %s %s %s" % (r.randrange(9), r.choice(["buf", "raw"]), hx(v[0]), hx(v[1]))
    elif what == "huff":
        yield gens.dec(r, "huff", s, len(s))
        yield "henc " + hx(s)
        if ok:
            yield "henc " + hx(v)
    else:
        yield gens.dec(r, what, s, p)
        if what == "frame":
            yield gens.dec(r, "peek", s)
            if ok:
                yield "fenc %s %s" % (v["t"], gens.fnum([num(w) for w in v["f"]]))
        elif what == "varint" and ok:
            yield "venc %d" % num(v)
        elif what == "pint" and ok:
            yield "penc %d %d %d" % (num(v), p, r.randrange(1 << (8 - p)) << p)
        elif what == "lit":
            high = r.randrange(1 << (7 - p)) << (p + 1)
            yield "lenc %d %d %s" % (p, high, hx(s))
            if ok:
                yield "lenc %d %d %s" % (p, high, hx(v))


CODEC = ["Delimited", "Canonical", "RoundTrip", "Peeking"]


def codec(what, ps, quick, thorough, most=40000):
    """(bytes, how many) for every number of prefix bits."""
    def run(run):
        t = run.tier == "thorough"
        alphabet, n = thorough if t else quick
        r, ops = run.rng("strings"), []
        for p in ps:
            c = dict(What=what, P=p, Alphabet=set(alphabet), N=n, Scripts=True)
            found = run.model_part("laws-%s-%d" % (what, p), "MC_Codec", c, CODEC, ["Steady"])
            if len(found) > most // len(ps):
                found = r.sample(found, most // len(ps))
            ops += [o for d in found for o in codec_ops(r, what, p, d)]
        run.traces_part("strings", gens.batch("all", dict.fromkeys(ops), 40))
    return run


UNIT = 10           # what the model keeps inline is what the implementation does


def buffer_script(d):
    s, live = [], set()
    for e in d:
        o = e["o"]
        if o == "bnew":
            b = bytes((x + k) % 256 for x in e["in"] for k in range(UNIT))
            s.append("b new %d %s" % (e["d"], hx(b)))
            live.add(e["d"])
        elif o == "bslice":
            how = "slicea" if e["d"] == e["s"] else "slice"
            s.append("b %s %d %d %d" % (how, e["d"], e["s"], UNIT * e["n"]))
            live.add(e["d"])
        elif o == "bconsume":
            s.append("b consume %d %d" % (e["d"], UNIT * e["n"]))
        elif o == "bmove":
            how = "move" if e["d"] in live else "movec"
            s.append("b %s %d %d" % (how, e["d"], e["s"]))
            if e["d"] != e["s"]:
                live.add(e["d"])
                live.discard(e["s"])
        elif o == "bdrop":
            s.append("b drop %d" % e["d"])
            live.discard(e["d"])
        elif o == "bconcat":
            s.append("b concat %d %d %d" % (e["d"], e["s"], e["t"]))
            live.add(e["d"])
        elif o == "bwrite":
            s.append("b write %d %d %d" % (e["d"], UNIT * e["i"], e["v"]))
    return "\n".join(s)


def buffers(quick, thorough, most=4000):
    """(slots, sizes, operations) of the model; those whose scripts are run."""
    def run(run):
        t = run.tier == "thorough"
        slots, sizes, n = thorough if t else quick
        c = dict(Slots=set(slots), Sizes=set(sizes), Inline=2, N=n, Scripts=False)
        run.model_part("design", "MC_Buffers", c, ["Refines", "Counted", "Safe", "Disjoint"])
        c = dict(Slots={1, 2}, Sizes={2, 3, 4}, Inline=2, N=3, Scripts=True)
        found = run.model_part("sequences", "MC_Buffers", c, ["Refines"])
        r = run.rng("behaviours")
        scripts = r.sample(found, min(len(found), most * (3 if t else 1)))
        c["N"], c["Slots"] = 8, {1, 2, 3}
        found = core.model_scripts(run.work, "buffers", "MC_Buffers", c, seed(run, "long"), 20, 12)
        scripts += r.sample(found, min(len(found), most // 3 * (3 if t else 1)))
        run.traces_part("behaviours", [("model-%d" % k, buffer_script(d))
                                       for k, d in enumerate(scripts)])
    return run


def chain_script(what, p, d):
    s = []
    for op in d:
        if op[0] == "push":
            s.append("s push 0 " + hx(op[1]))
        elif op[0] == "dec":
            if what == "frame":
                s.append("s dec 0 peek 0")
            s.append("s dec 0 %s %d" % (what, p))
        elif op[0] == "pop":
            s.append("s pop 0")
        else:
            s.append("s %s 0 %d" % (op[0], op[1]))
    s += ["s dec 0 %s %d" % (what, p)] * 2
    return "\n".join(s + ["s look 0 0 0 0"])


CHAINS = ["Conserved", "Same", "Everything"]


def chains(configs, most=3000):
    """(what, prefix bits, items, their number, thorough number, other operations, how many)"""
    def run(run):
        t = run.tier == "thorough"
        scripts = []
        for what, p, use, n, tn, ops, k in configs:
            c = dict(What=what, P=p, Use=set(use), N=tn if t else n, Ops=set(ops), K=k, Scripts=False)
            name = "pieces-%s%s" % (what, "-ops" if ops else "")
            run.model_part(name, "MC_Chains", c, CHAINS)
            found = core.model_scripts(run.work, name, "MC_Chains", c, seed(run, name), 100 * (5 if t else 1), 60)
            if len(found) > most // len(configs):
                found = run.rng(name).sample(found, most // len(configs))
            scripts += [("%s-%d" % (name, len(scripts) + i), chain_script(what, p, d)) for i, d in enumerate(found)]
        run.traces_part("behaviours", scripts)
    return run


# ---------------------------------------------------------------------------
# The QUIC client

def quic_script(d, r):
    q = quicgens.connected(r)
    q.op("mark")
    unit, same = r.choice([1, 1, 10, 21, 600]), r.random() < 0.4
    plan = {}
    for e in d["ops"]:
        o = e[0]
        if o == "add":
            if int(e[1]) not in q.all:
                q.all.append(int(e[1]))
            b = bytes((k if same else x + k) % 256 for x in e[3] for k in range(unit))
            q.op("add", e[1], int(e[2]), hx(b))
        elif o == "pkt":
            plan.setdefault("pkt", []).append("40" if e[1] == "ok" else "idle")
        elif o == "open":
            plan.setdefault("open", []).append(e[1])
        elif o == "write":
            plan.setdefault("write", []).append(str(unit * e[2]) if e[1] == "ok" and e[2] else "1200" if e[1] == "ok" else e[1])
        elif o == "sent":
            for k in plan:
                q.op("plan", k, ",".join(plan[k]))
            q.op("send")
            plan = {}
        elif o == "ack":
            q.op("cb", "a:%s:%d" % (e[1], unit * e[2]))
            q.op("retx")
        elif o == "retx":
            q.op("retx")
    quicgens.drain(q)
    return q.text()


QUIC = ["Exact", "Kept", "Repeatable", "Receptive"]


def quic_(streams, adds, window=2, losses=1):
    return dict(Streams=streams, Adds=adds, Window=window, Losses=losses, Most=2)


def transfers(quick, thorough, live, tlive=(), sim=40, most=300):
    def run(run):
        t = run.tier == "thorough"
        for k, c in enumerate(tuple(live) + (tuple(tlive) if t else ())):
            run.model_part("arrival-%d" % k, "MC_Quic", dict(c, Scripts=False), [], ["Arrives"])
        for k, c in enumerate(thorough if t else quick):
            run.model_part("transfers-%d" % k, "MC_Quic", dict(c, Scripts=False), QUIC)
        r = run.rng("behaviours")
        found = core.model_scripts(run.work, "transfers", "MC_Quic", quic_(3, 3, 3, 2),
                                   seed(run, "transfers"), sim * (5 if t else 1), 300)
        found = r.sample(found, min(len(found), most * (5 if t else 1)))
        run.traces_part("transfer-behaviours", [("model-%d" % k, quic_script(d, r)) for k, d in enumerate(found)],
                        "TraceQuic")
    return run


SUITES = ["50336513", "50336514", "50336515"]


def keys_script(d, r):
    q = quicgens.Quic(r, cipher=int(d["ops"][0][1]))
    q.new()
    unit = r.choice([1, 1, 7, 20, 21, 300])
    calls, over = [], False
    for e in d["ops"][1:]:
        if e[0] in ("hello", "crypto", "update", "ack"):
            calls.append((e, []))
        else:
            calls[-1][1].append(e)
    for call, inner in calls:
        items = []
        for e in inner:
            if e[0] == "secrets":
                items.append(q.secrets(e[1], cipher=0 if e[2] == "0" else None))
            elif e[0] == "data":
                items.append(q.data(e[1], unit * e[2]))
            elif e[0] == "done":
                if not over:
                    items.append(q.tp())
            elif e[0] in ("want", "err"):
                items.append(e[0])
            elif e[0] == "fail":
                q.op("plan fail", e[1], r.choice([0, 0, 1, 2, 3, 4, 5]) if e[1] in ("expand", "install") else 0)
        if call[0] == "hello":
            q.tls(*items)
            q.op(r.choice(["send", "cb i"]))
        elif call[0] == "crypto":
            over = over or any(e[0] == "done" for e in inner)
            q.crypto(call[1], *items)
        elif call[0] == "update":
            q.op("cb", "u")
            if r.random() < 0.3:
                quicgens.protections(q, 1)
        else:
            q.op("cb", "k:%s:%d" % (call[1], unit * call[2]))
            q.op("retx")
    q.op("retx")
    q.op("poll", 3)
    q.op("cb", "k:initial:*", "k:handshake:*")
    q.op("retx")
    return q.text()


KEYS = ["Agreement", "Whole", "OnlyTls", "InTime", "Exact", "Loud", "Honest"]


def keys_(suites, wrong, failures, refreshes, extra, early, acks):
    return dict(Suites=set({"A": SUITES[0], "B": SUITES[1], "C": SUITES[2]}[x] for x in suites), Wrong=wrong, Failures=failures, Refreshes=refreshes, Extra=extra,
                Early=early, Acks=acks)


def handshakes(quick, thorough, live, broken, sim=40, most=300):
    def run(run):
        t = run.tier == "thorough"
        for k, c in enumerate(live):
            run.model_part("completion-%d" % k, "MC_Keys", dict(c, Scripts=False), [], ["Ends", "NoTrouble"])
        for k, c in enumerate(broken):
            run.model_part("failure-%d" % k, "MC_Keys", dict(c, Scripts=False), [], ["Ends", "Complete"])
        for k, c in enumerate(thorough if t else quick):
            run.model_part("agreement-%d" % k, "MC_Keys", dict(c, Scripts=False), KEYS)
        r = run.rng("handshakes")
        found = core.model_scripts(run.work, "handshakes", "MC_Keys", keys_("ABC", 0, 1, 3, 3, True, 4),
                                   seed(run, "handshakes"), sim * (5 if t else 1), 300)
        found = r.sample(found, min(len(found), most * (5 if t else 1)))
        run.traces_part("handshake-behaviours", [("model-%d" % k, keys_script(d, r)) for k, d in enumerate(found)],
                        "TraceQuic")
    return run
