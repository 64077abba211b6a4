"""Scripts that drive whole endpoints: applications, handles, sends, deliveries."""
from gens import *


class Sim:
    """Keeps just enough state to choose sensible operations."""

    def __init__(self, r, pairs=1, body="small"):
        self.r, self.ops = r, []
        self.last = None
        self.pairs = pairs
        self.clients, self.servers = {}, {}   # logical pair -> connection slot
        self.nextslot, self.nexth, self.nextg = 1, 1, 1
        self.reqs = {p: 0 for p in range(pairs)}
        self.ch, self.sh = {}, {}            # (pair, id) -> handle slot
        self.allh = []
        self.seen = {p: set() for p in range(pairs)}
        self.body = body
        self.gens = []
        for p in range(pairs):
            self.clients[p] = self.slot()
            self.op("client %d" % self.clients[p])
            self.servers[p] = self.slot()
            self.op("server %d" % self.servers[p])

    def slot(self):
        self.nextslot += 1
        return self.nextslot - 1

    def op(self, s):
        self.ops.append(s)

    def newh(self):
        self.nexth += 1
        h = self.nexth - 1 + 10
        self.allh.append(h)
        return h

    def data(self):
        r = self.r
        if self.body == "big" and r.random() < 0.2:
            return "@%d,%d,%d" % (r.choice([1000, 5000, 16383, 16384, 20000]), r.randrange(256), r.choice([1, 3, 7]))
        n = r.choice([0, 1, 2, 3, 5, 10, 20, 21, 22, 40, 63, 64, 65])
        return hx(rbytes(r, n))

    def request(self, p, h=None):
        h = h or self.newh()
        self.op("request %d %d" % (self.clients[p], h))
        self.ch[p, 4 * self.reqs[p]] = h
        self.reqs[p] += 1
        return h

    def header(self, h, bad=0.0):
        n, v = rheader(self.r) if self.r.random() < 0.5 else self.r.choice(REQ)
        if self.last and self.r.random() < 0.15:        # the same one again, or its name
            n, v = self.last[0], self.r.choice([v, self.last[1], self.last[1]])
        self.last = n, v
        if self.r.random() < bad:
            n = rname(self.r, True)
        self.op("h header %d %s %s" % (h, hx(n), hx(v)))

    def fill(self, h, whole=True):
        """Submits a message (or an arbitrary piece of one)."""
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            self.header(h)
        steps = ["start"] + ["body"] * r.choice([0, 0, 1, 2, 3]) + ["fin"]
        if r.random() < 0.3:                 # body before start is allowed
            r.shuffle(steps)
        if not whole:
            steps = steps[:r.randint(0, len(steps))]
        for s in steps:
            self.step(h, s)

    def step(self, h, s):
        self.op("h %s %d%s" % (s, h, " " + self.data() if s == "body" else ""))

    def deliver(self, src, dst, sid, n=-1, fin=1, drain=True):
        r = self.r
        g = r.randint(1, 6)
        self.op("dlv %d %d %d %d %d %d" % (src, sid, n, fin, dst, g))
        if drain:
            self.op("drain %d" % g)
        elif r.random() < 0.3:
            self.op("next %d" % g)
        self.gens.append(g)

    def ids(self, p):
        return [4 * k for k in range(self.reqs[p])]

    def some_n(self):
        r = self.r
        return r.choice([-1, -1, 0, 1, 1, 2, 3, 5, 10, 30, 100, 1000])

    def pump(self, p, rounds=1, exact=True):
        """Moves everything, in order per stream."""
        c, s = self.clients[p], self.servers[p]
        for _ in range(rounds):
            self.op("flush %d" % c)
            ids = [2] + self.ids(p)
            self.r.shuffle(ids)
            for i in ids:
                self.deliver(c, s, i)
            self.op("flush %d" % s)
            ids = [3] + self.ids(p)
            self.r.shuffle(ids)
            for i in ids:
                self.deliver(s, c, i)

    def text(self):
        return "\n".join(self.ops)


def walk(r, n, pairs=1, weird=0.0, moves=0.0, body="small", early=0.3):
    sim = Sim(r, pairs, body)
    maxreq = r.choice([1, 1, 2, 3, 5])
    for _ in range(n):
        p = r.randrange(pairs)
        c, s = sim.clients[p], sim.servers[p]
        ids = sim.ids(p)
        x = r.random()
        if not ids or (x < 0.08 and len(ids) < maxreq):
            h = sim.request(p)
            if r.random() < 0.6:
                sim.fill(h, r.random() < 0.7)
            continue
        i = r.choice(ids)
        if x < 0.28:
            h = sim.ch.get((p, i))
            if h is not None:
                k = r.random()
                if k < 0.2:
                    sim.header(h, 0.1 if weird else 0.02)
                else:
                    sim.step(h, r.choice(["start", "body", "body", "fin"]))
        elif x < 0.36:
            sim.op("%s %d" % (r.choice(["send", "send", "flush"]), r.choice([c, s])))
        elif x < 0.60:
            a, b, ctl = (c, s, 2) if r.random() < 0.55 else (s, c, 3)
            sim.deliver(a, b, r.choice(ids + [ctl, i, i]), sim.some_n(), int(r.random() < 0.7), r.random() < 0.85)
        elif x < 0.70:
            h = sim.newh() if (p, i) not in sim.sh or r.random() < 0.1 else sim.sh[p, i]
            sim.op("response %d %d %d" % (s, i, h))
            sim.sh[p, i] = h
            if r.random() < early:
                sim.fill(h, r.random() < 0.8)
        elif x < 0.82:
            h = sim.sh.get((p, i))
            if h is not None:
                if r.random() < 0.25:
                    sim.header(h)
                else:
                    sim.step(h, r.choice(["start", "body", "body", "fin"]))
        elif x < 0.86 and sim.gens:
            g = r.choice(sim.gens)
            sim.op(r.choice(["next %d", "drain %d", "drain %d"]) % g)
            if r.random() < 0.1:
                sim.op("gdrop %d" % g)
        elif x < 0.86 + 0.10 * moves:
            juggle(r, sim, p)
        elif x < 0.96 + 0.02 * weird:
            if weird and r.random() < weird:
                odd(r, sim, p)
            else:
                sim.op("flush %d" % r.choice([c, s]))
    return sim


def juggle(r, sim, p):
    """Handles and connections move, die and are replaced."""
    k = r.randrange(9)
    hs = sim.allh
    if k <= 2 and len(hs) > 0:
        h = r.choice(hs)
        d = r.choice(hs + [sim.newh()])
        if r.random() < 0.3:
            sim.op("h new %d" % d)
        sim.op("h %s %d %d" % (r.choice(["move", "movec"]), h, d))
        for m in (sim.ch, sim.sh):
            for q, v in list(m.items()):
                if v == h and r.random() < 0.7:
                    m[q] = d
    elif k == 3 and hs:
        sim.op("h drop %d" % r.choice(hs))
    elif k == 4:
        d = sim.slot()
        which = r.choice([sim.clients, sim.servers])
        sim.op("cmove %d %d" % (which[p], d))
        which[p] = d
    elif k == 5 and sim.ids(p):
        i = r.choice(sim.ids(p))
        h = sim.newh()
        sim.op("response %d %d %d" % (sim.servers[p], i, h))
        if r.random() < 0.5:
            sim.sh[p, i] = h                 # else keep using the replaced one
    elif k == 6 and hs:
        h = r.choice(hs)
        sim.op("h id %d" % h)
        sim.step(h, r.choice(["start", "body", "fin"]))
    elif k == 7:
        which, what = r.choice([(sim.clients, "client"), (sim.servers, "server")])
        d = sim.slot()
        sim.op("%s %d" % (what, d))
        if r.random() < 0.5:
            sim.op("cassign %d %d" % (which[p], d))
            which[p] = d
    elif k == 8 and r.random() < 0.3:
        which = r.choice([sim.clients, sim.servers])
        sim.op("cdel %d" % which[p])


def odd(r, sim, p):
    """Things a peer or an application should not do."""
    c, s = sim.clients[p], sim.servers[p]
    k = r.randrange(8)
    g = r.randint(7, 9)
    ids = sim.ids(p) or [0]
    if k == 0:
        sim.op("recv %d %d %d %d %s" % (c, g, 4 * (sim.reqs[p] + r.choice([0, 1, 5])), r.randint(0, 1), hx(noise(r))))
    elif k == 1:
        sim.op("recv %d %d %d %d %s" % (r.choice([c, s]), g, r.choice([6, 7, 10, 11, 14, 15]), r.randint(0, 1), hx(noise(r))))
    elif k == 2:
        sim.op("recv %d %d %d %d %s" % (r.choice([c, s]), g, r.choice(ids), r.randint(0, 1), hx(noise(r))))
    elif k == 3:
        sim.op("response %d %d %d" % (s, r.choice([100, 4 * sim.reqs[p], 400]), sim.newh()))
    elif k == 4:
        sim.op("rerr %d %d" % (r.choice([c, s]), r.choice(ids)))
    elif k == 5:
        sim.op("recv %d %d %d %d %s" % (r.choice([c, s]), g, r.choice([1, 5]), r.randint(0, 1), hx(noise(r))))
    elif k == 6:
        sim.op("recv %d %d %d 0 %s" % (s, g, r.choice([1000, 1004]), hx(b"".join(illegal(r, message(r))))))
    else:
        sim.op("recv %d %d %d %d %s" % (c, g, 3, 0, hx(noise(r))))
    sim.op("drain %d" % g)


def finish(r, sim, rounds=2):
    """Ends every message and lets everything arrive."""
    for p in range(sim.pairs):
        for i in sim.ids(p):
            h = sim.ch.get((p, i))
            if h is not None and r.random() < 0.95:
                sim.header(h)
                sim.op("h start %d" % h)
                sim.op("h fin %d" % h)
    for p in range(sim.pairs):
        for q in range(rounds):
            sim.pump(p)
            for i in sim.ids(p):
                h = sim.sh.get((p, i))
                if h is None:
                    h = sim.sh[p, i] = sim.newh()
                    sim.op("response %d %d %d" % (sim.servers[p], i, h))
                sim.header(h)
                sim.op("h start %d" % h)
                if r.random() < 0.4:
                    sim.step(h, "body")
                sim.op("h fin %d" % h)
        for g in range(1, 7):
            sim.op("next %d" % g)
    return sim


def senders(r, big):
    """C16: applications and sends."""
    yield from huge(r, 4)
    yield from many(r, [70])
    for k in range(260 * big):
        sim = Sim(r, 1, r.choice(["small", "small", "big"] if k % 6 == 0 else ["small"]))
        role = r.choice(["client", "server"])
        c, s = sim.clients[0], sim.servers[0]
        hs = []
        if r.random() < 0.5:                 # the idle connection
            sim.op("send %d" % c)
            sim.op("send %d" % c)
        n = r.choice([1, 1, 2, 3, 4])
        for _ in range(n):
            h = sim.request(0)
            hs.append((c, h))
            if role == "server":
                sim.fill(h)
        if role == "server":
            hs = []
            sim.pump(0)
            for i in sim.ids(0):
                h = sim.newh()
                sim.op("response %d %d %d" % (s, i, h))
                hs.append((s, h))
        me = c if role == "client" else s
        for _ in range(r.randint(5, 40)):
            _, h = r.choice(hs)
            x = r.random()
            if x < 0.3:
                sim.op("send %d" % me)
            elif x < 0.35:
                sim.op("flush %d" % me)
            elif x < 0.55:
                sim.header(h, 0.15)
            elif x < 0.65:
                sim.op("h start %d" % h)
            elif x < 0.9:
                sim.step(h, "body")
            else:
                sim.op("h fin %d" % h)
        if r.random() < 0.8:
            for _, h in hs:
                sim.header(h)
                sim.op("h start %d" % h)
                sim.step(h, "body")
                sim.op("h fin %d" % h)
                if r.random() < 0.5:
                    sim.op("send %d" % me)
        sim.op("flush %d" % me)
        sim.op("send %d" % me)
        for _, h in hs:
            if r.random() < 0.5:
                sim.op("h fin %d" % h)
            if r.random() < 0.5:
                sim.step(h, "body")
        sim.op("flush %d" % me)
        yield "send-%s-%d" % (role, k), sim.text()
    # header blocks around varint boundaries of their size
    ks = 0
    for n in list(range(50, 66)) + [16370, 16375, 16378, 16379, 16380, 16384]:
        sim = Sim(r)
        h = sim.request(0)
        sim.op("h header %d %s %s" % (h, hx(b"x"), "@%d,0,1" % n if n > 1000 else hx(b"\x80" * n)))
        sim.op("h start %d" % h)
        sim.op("h body %d @%d,1,1" % (h, n))
        sim.op("h fin %d" % h)
        sim.pump(0)
        yield "size-%d" % ks, sim.text()
        ks += 1


def huge(r, n):
    """Messages and pieces of more than 65535 bytes, both ways."""
    for k in range(n):
        sim = Sim(r, 1)
        c, s = sim.clients[0], sim.servers[0]
        h = sim.request(0)
        for phase, (a, b, ctl) in enumerate(((c, s, 2), (s, c, 3))):
            if phase:
                h = sim.newh()
                sim.op("response %d 0 %d" % (s, h))
            sim.header(h)
            if k % 2 == phase:
                sim.op("h header %d %s %s" % (h, hx(b"n"), hx(r.choice([b"~", b"a", b"0"]) * r.choice([65530, 65600, 107000]))))
            sim.op("h start %d" % h)
            for m in [r.choice([65535, 65536, 70000]), r.choice([0, 5]), r.choice([65536, 66000])][:r.choice([1, 2, 3])]:
                sim.op("h body %d @%d,%d,%d" % (h, m, r.randrange(256), r.choice([1, 3, 7])))
            sim.op("h fin %d" % h)
            sim.op("flush %d" % a)
            sim.deliver(a, b, ctl)
            for _ in range(r.randint(0, 4)):
                sim.deliver(a, b, 0, r.choice([1, 20000, 65535, 65536, 65537, 66000]))
            sim.deliver(a, b, 0)
        yield "huge-%d" % k, sim.text()


def many(r, counts):
    """Many streams at once."""
    for k, n in enumerate(counts):
        sim = Sim(r, 1)
        c, s = sim.clients[0], sim.servers[0]
        hs = []
        for _ in range(n):
            h = sim.request(0)
            hs.append(h)
            sim.header(h)
            sim.op("h start %d" % h)
            sim.op("h fin %d" % h)
        sim.op("flush %d" % c)
        ids = sim.ids(0)
        r.shuffle(ids)
        for i in ids:
            sim.deliver(c, s, i)
        r.shuffle(ids)
        for i in ids:
            h = sim.newh()
            sim.op("response %d %d %d" % (s, i, h))
            sim.header(h)
            sim.op("h start %d" % h)
            if r.random() < 0.5:
                sim.step(h, "body")
            sim.op("h fin %d" % h)
        sim.op("flush %d" % s)
        r.shuffle(ids)
        for i in [3] + ids:
            sim.deliver(s, c, i)
        yield "many-%d" % k, sim.text()


def endtoend(r, big):
    """C17: legal applications, arbitrary interleavings, everything arrives."""
    yield from huge(r, 4)
    yield from many(r, [20, 70])
    for k in range(170 * big):
        sim = walk(r, r.randint(20, 90), r.choice([1, 1, 1, 2]), 0.0, 0.0,
                   "big" if k % 12 == 0 else "small")
        finish(r, sim)
        yield "e2e-%d" % k, sim.text()
    for k in range(50 * big):                # plain exchanges, heavily fragmented
        sim = Sim(r, 1)
        hs = [sim.request(0) for _ in range(r.randint(1, 4))]
        for h in hs:
            sim.fill(h)
        c, s = sim.clients[0], sim.servers[0]
        sim.op("flush %d" % c)
        for phase, (a, b, ctl) in enumerate(((c, s, 2), (s, c, 3))):
            ids = sim.ids(0) + [ctl]
            for _ in range(r.randint(30, 120)):
                sim.deliver(a, b, r.choice(ids), r.choice([1, 1, 2, 3, 7]), int(r.random() < 0.5), r.random() < 0.7)
            for i in ids:
                sim.deliver(a, b, i)
            if phase == 0:
                for i in sim.ids(0):
                    h = sim.newh()
                    sim.op("response %d %d %d" % (s, i, h))
                    sim.fill(h)
                sim.op("flush %d" % s)
        yield "frag-%d" % k, sim.text()


def isolation(r, big):
    """C18: one stream misbehaves, the others must not notice."""
    for k in range(170 * big):
        sim = walk(r, r.randint(15, 60), r.choice([1, 1, 2]), 0.9, 0.0)
        finish(r, sim)
        yield "iso-%d" % k, sim.text()
    for k in range(60 * big):                # many streams, crafted contents, one receiver
        role = r.choice(["client", "server"])
        n = r.randint(2, 5)
        ops = setup_client(r, n=n) if role == "client" else ["server 1"]
        streams = {}
        sid = {i: 4 * i for i in range(n)}
        if role == "server" and r.random() < 0.5:       # ids that agree in their low bits
            near = [4 * i + w for i in range(2) for w in [0, 64, 128] + WIDE] + [MAX62 - 3, MAX62 - 7]
            sid = dict(enumerate(r.sample(near, n)))
        for i in range(n):
            msg = message(r) if r.random() < 0.6 else illegal(r, message(r))
            streams[sid[i]] = chunks(r, b"".join(msg), r.choice([0, 2, 3, 4, 5]))
        streams[3 if role == "client" else 2] = chunks(r, b"".join(control_bytes(r)), r.choice([0, 2, 3]))
        # unidirectional streams, whatever their ids look like and they carry
        for u in r.sample([6, 7, 10, 11, 15, 14] + [u + w for w in [64, 128] + WIDE for u in (2, 3)], 2):
            streams[u] = chunks(r, noise(r) if r.random() < 0.5 else b"".join(message(r)), 2)
        # streams that were never opened, with ids that look like those that were
        if role == "client" and r.random() < 0.5:
            for i in r.sample(range(n), 2):
                u = 4 * i + r.choice(WIDE)
                streams[u] = chunks(r, b"".join(message(r)), 2)
        gen = {i: k + 1 for k, i in enumerate(streams)}
        ids = [sid[i] for i in range(n)]
        while streams:
            i = r.choice(list(streams))
            c = streams[i].pop(0)
            fin = not streams[i] and i not in (2, 3)
            ops.append("recv 1 %d %d %d %s" % (gen[i], i, fin and r.random() < 0.8, hx(c)))
            if r.random() < 0.8:
                ops.append("drain %d" % gen[i])
            if not streams[i]:
                del streams[i]
        for i in ids:
            ops += ["drain %d" % gen[i], "drain %d" % gen[i], "next %d" % gen[i]]
        for j, i in enumerate(ids):
            if role == "client":
                ops.append("h body %d 01" % (100 + j))
            else:
                ops += ["response 1 %d %d" % (i, 200 + j), "h header %d 61 %02x" % (200 + j, j), "h start %d" % (200 + j)]
        if role == "server":
            ops.append("flush 1")
        yield "multi-%s-%d" % (role, k), "\n".join(ops)
    ops = ["client 1"]
    for i in range(40):
        ops.append("request 1 %d" % (i % 7))
        if i % 3 == 0:
            ops.append("h id %d" % (i % 7))
    yield "ids", "\n".join(ops)


def handles(r, big):
    """C19."""
    for k in range(280 * big):
        sim = walk(r, r.randint(25, 90), r.choice([1, 1, 2]), 0.2, 1.0)
        if r.random() < 0.5:
            finish(r, sim, 1)
        for h in sim.allh[:10]:
            if r.random() < 0.5:
                sim.op("h id %d" % h)
            sim.step(h, r.choice(["start", "body", "fin"]))
            sim.header(h)
        if r.random() < 0.5:                 # destruction in any order
            slots = list(sim.clients.values()) + list(sim.servers.values())
            rest = [("cdel %d" % x) for x in slots] + [("h drop %d" % h) for h in sim.allh]
            r.shuffle(rest)
            for x in rest:
                sim.op(x)
                if r.random() < 0.2 and sim.allh:
                    sim.step(r.choice(sim.allh), "body")
        yield "handle-%d" % k, sim.text()
    # out-of-order calls on one handle
    for k in range(60 * big):
        sim = Sim(r)
        h = sim.request(0)
        for _ in range(r.randint(4, 14)):
            x = r.choice(["header", "start", "body", "fin", "send", "send"])
            if x == "header":
                sim.header(h, 0.2)
            elif x == "send":
                sim.op("send %d" % sim.clients[0])
            else:
                sim.step(h, x)
        sim.op("flush %d" % sim.clients[0])
        for x in ("start", "body", "fin"):
            sim.step(h, x)
        sim.op("flush %d" % sim.clients[0])
        yield "order-%d" % k, sim.text()


def lifetimes(r, big):
    """C20: early responses, late bodies, pending generators."""
    for k in range(110 * big):
        sim = walk(r, r.randint(20, 70), 1, 0.1, 0.1, early=0.9)
        finish(r, sim)
        for i in sim.ids(0):
            sim.op("response %d %d %d" % (sim.servers[0], i, sim.newh()))
            sim.op("recv %d 8 %d %d %s" % (sim.clients[0], i, r.randint(0, 1), hx(rbytes(r, r.choice([0, 3])))))
            sim.op("drain 8")
            h = sim.ch.get((0, i))
            if h:
                sim.step(h, r.choice(["body", "start", "fin"]))
        for g in range(1, 9):
            sim.op("drain %d" % g)
            sim.op("next %d" % g)
        yield "life-%d" % k, sim.text()
    # the response completes at every possible point of the request
    k = 0
    for when in range(9):
        for style in range(4):
            sim = Sim(r)
            c, s = sim.clients[0], sim.servers[0]
            h = sim.request(0)
            for n, v in REQ[:2]:
                sim.op("h header %d %s %s" % (h, hx(n), hx(v)))
            steps = ["h start %d" % h, "flush %d" % c, "dlv %d 0 1 0 %d 1" % (c, s), "drain 1",
                     "dlv %d 0 -1 0 %d 2" % (c, s), "drain 2" if style % 2 else "next 2",
                     "h body %d 0102030405" % h, "h fin %d" % h, "flush %d" % c,
                     "dlv %d 0 4 0 %d 3" % (c, s), "drain 3", "dlv %d 0 -1 1 %d 4" % (c, s)]
            cut = [0, 2, 3, 4, 5, 6, 9, 10, 12][when]
            for x in steps[:cut]:
                sim.op(x)
            rh = sim.newh()
            sim.op("response %d 0 %d" % (s, rh))
            sim.fill(rh)
            sim.op("flush %d" % s)
            sim.op("response %d 0 %d" % (s, sim.newh()))
            if style >= 2:
                sim.op("dlv %d 0 -1 1 %d 5" % (s, c))
                sim.op("drain 5")
            for x in steps[cut:]:
                sim.op(x)
            for g in (4, 1, 2, 3, 4, 5):
                sim.op("drain %d" % g)
                sim.op("next %d" % g)
            sim.op("response %d 0 %d" % (s, rh))
            sim.fill(rh)
            sim.op("flush %d" % s)
            sim.op("dlv %d 0 -1 1 %d 5" % (s, c))
            for g in (5, 5, 4):
                sim.op("drain %d" % g)
            for x in ("body", "start", "fin"):
                sim.step(h, x)
                sim.step(rh, x)
            sim.op("recv %d 6 0 0 00" % c)
            sim.op("drain 6")
            sim.op("response %d 0 %d" % (s, sim.newh()))
            yield "early-%d" % k, sim.text()
            k += 1
    for k in range(70 * big):                # crafted requests, responses at random points
        ops = ["server 1"]
        n = r.randint(1, 3)
        streams = {4 * i: chunks(r, b"".join(message(r) if r.random() < .8 else illegal(r, message(r))), r.choice([0, 2, 3, 4, 5])) for i in range(n)}
        h = 10
        live = []
        for _ in range(60):
            x = r.random()
            i = 4 * r.randrange(n)
            if x < 0.35 and streams[i]:
                c = streams[i].pop(0)
                ops.append("recv 1 %d %d %d %s" % (r.randint(1, 5), i, not streams[i] and r.random() < .8, hx(c)))
                ops += polls(r, r.randint(1, 5))
            elif x < 0.5:
                ops.append("response 1 %d %d" % (i, h))
                live.append(h)
                h += 1
            elif x < 0.75 and live:
                q = r.choice(live)
                ops.append(r.choice(["h header %d 61 62", "h start %d", "h fin %d", "h body %d 0a0b"]) % q)
            elif x < 0.85:
                ops.append("flush 1")
            else:
                ops.append("drain %d" % r.randint(1, 5))
        for i in range(n):
            while streams[4 * i]:
                ops.append("recv 1 %d %d %d %s" % (i + 1, 4 * i, len(streams[4 * i]) == 1, hx(streams[4 * i].pop(0))))
                ops.append("drain %d" % (i + 1))
            ops.append("response 1 %d %d" % (4 * i, h + i))
        yield "server-%d" % k, "\n".join(ops)
