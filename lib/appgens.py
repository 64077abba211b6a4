"""Scripts for the client program (C27 and C29)."""
from gens import *
from quicgens import AES128, AES256, CHACHA, rb, fresh

SEC = 1000000           # the clock counts microseconds, the transport nanoseconds


class App:
    def __init__(self, r):
        self.r = r
        self.pre, self.ops = [], []
        self.cipher = r.choice([AES128, AES128, AES256, CHACHA])
        self.t = r.choice([0, 1, 999, SEC, 123456789, 1 << 40])
        self.idle = r.choice([30, 30, 30, 1, 7]) * SEC
        self.n = 0
        self.args = [b"example.org", b"4433"]
        self.addrs = [bytes([10, 0, 0, r.randint(1, 254)])]
        self.exp = None

    def op(self, *a):
        self.ops.append(" ".join(str(x) for x in a))

    def first(self, *a):
        self.pre.append(" ".join(str(x) for x in a))

    def timers(self, ahead=None):
        """The next expiry of the transport, `ahead' of now (never by default)."""
        e = (1 << 64) - 1 if ahead is None else (self.t + ahead) * 1000
        self.op("timers", self.idle * 1000, e)

    def clock(self, d=None):
        self.t += self.r.choice([0, 1, 10, 1000, 250000, 400000]) if d is None else d
        self.op("clock", self.t)

    def secrets(self, level, size=None):
        n = size or (48 if self.cipher == AES256 else 32)
        return "s:%s:%s:%s:%d" % (level, hx(rb(self.r, n)), hx(rb(self.r, n)), self.cipher)

    def tls(self, *items):
        self.op("plan", "tls", ";".join(items))

    def data(self, level):
        return "d:%s:%s" % (level, hx(rb(self.r, self.r.choice([1, 20, 300]))))

    def dgram(self, *items, **kw):
        self.n += 1
        n = self.r.choice([1, 21, 40, 1200, 1350]) if "n" not in kw else kw["n"]
        d = fresh(self.r, n)[:-1] + bytes([self.n % 256])
        self.op("race" if kw.get("race") else "dgram", hx(d), *items)

    def crypto(self, level, *step):
        self.dgram("tls=" + ";".join(step), "c:%s:%s" % (level, hx(rb(self.r, self.r.choice([1, 20, 90])))))

    def io(self, what="in"):
        self.op("io", what)

    def handshake(self, upto=9, bad=None):
        r = self.r
        self.tls(*([self.data("initial")] if bad != "start" else ["err"]))
        self.op("plan", "pkt", r.choice(["40,idle", "1200,idle", "40,1200,700,idle"]))
        self.io("out")
        if upto == 0:
            return
        last = "done:" + hx(rb(r, r.choice([1, 20])))
        if bad == "end":
            last = "err"
        steps = [("initial", [self.secrets("handshake")])]
        if r.random() < 0.4:
            steps.append(("handshake", [r.choice(["want", "write"])]))
        steps.append(("handshake", [self.secrets("application"), self.data("handshake"), last]))
        if bad == "secret":
            steps[0] = ("initial", ["s:handshake:%s:%s:%d" % (hx(rb(r, 32)), hx(rb(r, 32)), 0x03001304)])
        for k, (level, step) in enumerate(steps[:upto]):
            self.crypto(level, *step)
            if r.random() < 0.4:
                self.op("plan", "pkt", "40,idle")
            if r.random() < 0.5 or k == len(steps) - 1:
                self.clock()
                self.io(r.choice(["in", "in", "in,out"]))

    def items(self, streams):
        """Stream data in chunks, several streams mixed, each in order."""
        r = self.r
        qs = []
        for sid, b, fin in streams:
            cs = chunks(r, b, None if len(b) < 160 else r.choice([0, 2, 3]))
            if len(cs) > 60:
                cs = cs[:59] + [b"".join(cs[59:])]
            late = fin and r.random() < 0.3
            if late:
                cs.append(b"")
            qs.append(["d:%d:%d:%s" % (sid, int(fin and k == len(cs) - 1), c.hex())
                       for k, c in enumerate(cs)])
        out = []
        order = r.random() < 0.5
        while any(qs):
            live = [q for q in qs if q]
            out.append((live[0] if order else r.choice(live)).pop(0))
        return out

    def deliver(self, items, **kw):
        """In datagrams, in turns of the loop."""
        r = self.r
        while items:
            n = r.choice([1, 1, 2, 3, 8])
            self.dgram(*items[:n], **kw)
            items = items[n:]
            if r.random() < 0.5 or not items:
                if r.random() < 0.5:
                    self.clock()
                self.io(r.choice(["in", "in", "in,out"]))

    def text(self):
        m = " ".join(["main"] + [hx(a) for a in self.args])
        pre = ["dns " + ",".join(hx(a) for a in self.addrs)] if self.addrs else []
        if not any(x.startswith("now") for x in self.pre):
            pre.append("now %d" % self.t0)
        return "\n".join(pre + self.pre + [m] + self.ops)

    def begin(self, ahead=None):
        self.t0 = self.t
        self.first("timers", self.idle * 1000,
                   (1 << 64) - 1 if ahead is None else (self.t + ahead) * 1000)
        if len(self.addrs[0]) == 16:
            self.first("local", hx(rb(self.r, 16)))
        return self


REQUEST_RESPONSE = [(b":status", b"200"), (b"content-type", b"text/html"), (b"content-length", b"12")]


def connected(r, **kw):
    a = App(r).begin()
    if r.random() < 0.3:
        a.op("plan", "write", ",".join(str(r.choice([1, 3, 20, "none", 1200, 1200])) for _ in range(4)))
    a.handshake(**kw)
    return a


def finish(a):
    """An ordinary response."""
    r = a.r
    b = headers(r, REQUEST_RESPONSE) + data(r, 12)
    a.deliver(a.items([(3, b"".join(control_bytes(r)), False), (0, b, True)]))


def response(r, msg=None, fin=True, ctl=None, ctl_fin=False):
    a = connected(r)
    msg = message(r, 0.2) if msg is None else msg
    streams = [(3, b"".join(control_bytes(r) if ctl is None else ctl), ctl_fin), (0, b"".join(msg), fin)]
    if r.random() < 0.3:
        streams.append((r.choice([7, 11]), b"\x02" + rb(r, r.randint(0, 3)), False))
    if r.random() < 0.2:
        r.shuffle(streams)
    if r.random() < 0.1:
        del streams[0]
    a.deliver(a.items(streams))
    return a


def big_response(r):
    a = connected(r)
    n = r.choice([300, 1200, 2500])
    b = fresh(r, n)
    cut = r.randint(0, n)
    msg = [headers(r), frame("data", b[:cut]), unk(r), frame("data", b[cut:])]
    a.deliver(a.items([(3, b"".join(control_bytes(r)), False), (0, b"".join(msg), True)]))
    return a


def arguments(r):
    """Names, addresses and ports."""
    a = App(r).begin()
    k = r.randrange(12)
    if k == 0:
        a.args = r.choice([[], [b"example.org"], [b""]])
    elif k <= 3:
        a.args[1] = r.choice([b"", b"abc", b"-1", b"65536", b"70000", b"99999999999999999999999", b"0x50",
                              b"4433x", b" 4433", b"+4433", b"0", b"00", b"\t80", b"-", b"8 0", b"4.5", b"\xff",
                              b"18446744073709551617", b"4294971729", b"69969", b"+", b"+-1", b"- 1"])
    elif k == 4:
        a.args[1] = r.choice([b"1", b"80", b"443", b"65535", b"00443", b"8443", b"256"])
        a.args += r.choice([[], [b"more"]])
    elif k == 5:
        a.addrs = []
        a.first("nodns", r.choice(["again", "noname", "system"]))
    elif k == 6:
        a.addrs = []
    elif k == 7:
        a.addrs = [rb(r, 16)] + [rb(r, r.choice([4, 16])) for _ in range(r.randint(0, 2))]
        a.first("local", hx(rb(r, 16)))
    elif k == 8:
        a.addrs = [rb(r, 4), rb(r, 4), rb(r, 16)][:r.randint(2, 3)]
        if r.random() < 0.5:
            a.addrs.insert(1, a.addrs[0])
    elif k == 9:
        a.first("plan", "fail", r.choice(["socket", "connect", "setsockopt"]), 1)
    elif k == 10:
        a.first("plan", "fail", r.choice(["sdevent", "sdio", "sdtime", "sdtime", "sdsignal", "sdsignal"]),
                r.choice([1, 1, 2]))
    else:
        a.args[0] = r.choice([b"a", b"localhost", b"www.example.com", b"h" * 200, b"xn--bcher-kva.example"])
    a.handshake()
    finish(a)
    return a


def trouble(r):
    """Something goes wrong, or seems to, at some point."""
    when = r.choice([0, 1, 9, 9, 9])
    k = r.randrange(17)
    if k == 0:
        a = App(r).begin()
        a.handshake(bad=r.choice(["start", "end", "secret"]))
        finish(a)
        return a
    a = App(r).begin()
    if k == 1:      # sending fails
        a.op("plan", "out", ",".join(["ok"] * r.randint(0, 6) + [r.choice(["refused", "unreachable"])]))
    elif k == 2:    # a packet cannot be written
        a.op("plan", "pkt", ",".join(["40"] * r.randint(0, 2) + ["error"]))
    elif k == 3:
        a.op("plan", "open", ",".join(["ok"] * r.randint(0, 1) + ["error"]))
    elif k == 4:
        a.op("plan", "write", ",".join(["2"] * r.randint(0, 3) + ["shut"]))
    elif k == 5:
        a.op("plan", "fail", r.choice(["install", "extract", "expand", "submit", "dtp", "rtp", "provide"]),
                r.randint(1, 3))
    a.handshake(upto=when)
    half = headers(r) + data(r)
    if when == 9 and r.random() < 0.6:
        a.deliver(a.items([(3, b"".join(control_bytes(r)), False), (0, half, False)]))
    if k == 6:
        a.op("signal", r.choice([2, 15]))
    elif k == 7:
        a.op("soerr")
        a.io(r.choice(["err", "err,in", "err,out,in"]))
    elif k == 8:
        a.io(r.choice(["err", "err,in", "err,out"]))        # and it is gone again
    elif k == 9:
        a.op("rerr")
        a.io("in")
    elif k == 10:
        a.dgram("e:-201" if r.random() < 0.5 else "e:%d" % -r.randint(201, 230))
        a.io("in")
    elif k == 11:
        a.dgram("r:%d:0:%d" % (r.choice([0, 0, 3, 7]), r.choice([0, 0x10c, 256])))
        a.io("in")
    elif k == 12:
        a.dgram(r.choice(["s", "y"] + (["u", "u"] if when == 9 else []) + ["v:1", "v:0", "m:5", "o:7", "x:7:0"]))
        a.io("in")
    elif k == 13:
        a.dgram("a:%d:%s" % (r.choice([0, 2]), r.choice(["*", "1", "2", "99999"])))
        a.io("in")
    elif k == 14:
        a.dgram("d:%d:%d:%s" % (r.choice([1, 4, 5]), r.randint(0, 1), hx(rb(r, 3)).replace("-", "")))
        a.io("in")
    elif k == 15:
        a.io(r.choice(["hup", "hup,in", "rdhup", "rdhup,in"]))
    elif k == 16:
        # the response is complete, and then something goes wrong in the same turn
        a = connected(r)
        b = headers(r, REQUEST_RESPONSE) + data(r, 5)
        items = a.items([(3, b"".join(control_bytes(r)), False), (0, b, True)])
        a.dgram(*items + r.choice([["e:-210"], ["r:0:0:5"], ["d:3:0:0100"]]))
        if r.random() < 0.5:
            a.dgram("e:-210")
        a.io("in")
        return a
    if r.random() < 0.8:
        a.deliver(a.items([(0, data(r, 9), True)]) if when == 9 else [])
        if when != 9 and r.random() < 0.5:
            finish(a)
    return a


def waiting(r):
    """Time passes."""
    a = App(r)
    ahead = r.choice([None, 100000, 300000, SEC, 2 * SEC, -5])
    if ahead == -5 and a.t < 5:
        ahead = 100000
    a.begin(ahead)
    if r.random() < 0.4:
        a.first("late", r.choice([1, 100, 5000]))
    when = r.choice([0, 1, 9, 9])
    a.handshake(upto=when)
    if when == 9 and r.random() < 0.6:
        a.deliver(a.items([(3, b"".join(control_bytes(r)), False), (0, headers(r) + data(r), False)]))
    for _ in range(r.randint(1, 4)):
        k = r.randrange(5)
        if k <= 2:
            d = r.choice([1000, 20000, 250000, SEC // 2])
            due = a.t + d
            a.timers(d)
            x, y = r.choice([(0, 1), (1, 0), (1, 1), (0, 0)])
            far = (1 << 64) - 1
            a.op("due", (due + (0 if x else r.choice([1, 1000]))) * 1000 if r.random() < 0.9 else far,
                 (due + (0 if y else r.choice([1, 1000]))) * 1000 if r.random() < 0.9 else far)
            a.op("plan", "exps", ",".join(str((due + SEC * (2 + i)) * 1000) for i in range(6)))
            if r.random() < 0.5:
                a.op("plan", "pkt", r.choice(["40,idle", "40,40,idle", "error"] if r.random() < 0.3 else ["40,idle"]))
            a.dgram()
            a.io(r.choice(["in", "out", "in,out"]))
            if r.random() < 0.15:
                a.op("plan", "fail", "loss", 1)
            if r.random() < 0.5:
                a.op("plan", "arm", ",".join(str(r.choice([1, 1000, 200000, SEC, 60 * SEC])) for _ in range(3)))
            a.clock(d + r.choice([0, 1, 100, 30000]))
        elif k == 3:
            a.clock(r.choice([a.idle // 3, a.idle // 2]))
        else:
            a.dgram("t:%d" % ((a.t + r.choice([1000, 90000])) * 1000))
            a.io("in")
    if r.random() < 0.4:
        a.clock(a.idle + r.choice([0, 1, SEC, -1, -1000]))
    if r.random() < 0.4 and when == 9:
        a.deliver(a.items([(0, data(r), True)]))
    return a


def packets(r):
    """Many packets, a socket that is busy, packets that arrive at any time."""
    a = App(r).begin()
    a.op("plan", "out", ",".join(r.choice(["ok", "ok", "again"]) for _ in range(r.randint(1, 8))))
    if r.random() < 0.5:
        a.op("plan", "open", ",".join(r.choice(["ok", "blocked"]) for _ in range(3)))
    if r.random() < 0.6:
        a.op("plan", "write", ",".join(str(r.choice([1, 2, 5, 20, "none", "blocked", "congested", 1200]))
                                       for _ in range(r.randint(1, 6))))
    if r.random() < 0.5:
        a.op("plan", "arm", ",".join(str(r.choice([1, 1000, 200000, 300000, SEC, 60 * SEC])) for _ in range(r.randint(1, 12))))
    a.op("plan", "pkt", "40,idle")
    a.handshake()
    if r.random() < 0.3:            # a burst
        for _ in range(r.choice([9, 17, 33, 65, 130])):
            a.dgram(n=r.choice([1, 21]))
    items = a.items([(3, b"".join(control_bytes(r)), False), (0, b"".join(message(r, 0.2)), True)])
    while items:
        n = r.randint(1, 3)
        k = r.random()
        if k < 0.3:
            a.op("plan", "out", ",".join(r.choice(["ok", "again"]) for _ in range(r.randint(1, 4))))
            a.op("plan", "pkt", ",".join(["40"] * r.randint(1, 3) + ["idle"]))
        if r.random() < 0.3:
            a.dgram(*items[:n], race=True)
            items = items[n:]
            n = r.randint(0, 2)
            if r.random() < 0.6:
                a.io(r.choice(["in", "in,out"]))
                continue
        a.dgram(*items[:n], n=r.choice([1, 2, 40, 1200, 1500, 9000]))
        items = items[n:]
        if r.random() < 0.3:
            a.dgram(n=r.choice([1, 1200, 3000]))
        a.io(r.choice(["in", "in", "in,out", "out", "in,rdhup"]))
        if r.random() < 0.3:
            a.io("out")
    a.io("in,out")
    return a


def unprinted(r):
    a = connected(r)
    a.first("full")
    if r.random() < 0.2:
        a.deliver(a.items([(3, b"".join(control_bytes(r)), False), (0, headers(r), False)]))
    else:
        finish(a)
    return a


def outcome(r, big):
    """C27"""
    for name, n, make in (
            ("ok", 30, lambda: response(r)),
            ("big", 6, lambda: big_response(r)),
            ("bad", 24, lambda: response(r, illegal(r, message(r, 0.2)))),
            ("open", 8, lambda: response(r, fin=False)),
            ("ctl", 16, lambda: response(r, ctl=bad_control(r))),
            ("cfin", 4, lambda: response(r, ctl_fin=True)),
            ("args", 30, lambda: arguments(r)),
            ("trouble", 50, lambda: trouble(r)),
            ("wait", 16, lambda: waiting(r)),
            ("full", 4, lambda: unprinted(r))):
        for k in range(n * big):
            yield "%s-%d" % (name, k), make().text()


def loop(r, big):
    """C29"""
    for name, n, make in (
            ("packets", 50, lambda: packets(r)),
            ("wait", 40, lambda: waiting(r)),
            ("trouble", 20, lambda: trouble(r)),
            ("ok", 10, lambda: response(r)),
            ("args", 8, lambda: arguments(r))):
        for k in range(n * big):
            yield "%s-%d" % (name, k), make().text()
