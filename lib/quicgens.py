"""Scripts for the QUIC client (C23 to C25)."""
from gens import *

AES128, AES256, CHACHA = 0x03001301, 0x03001302, 0x03001303
KEYSIZE = {AES128: 16, AES256: 32, CHACHA: 32}
SIZES = [1, 2, 3, 19, 20, 21, 22, 40, 100, 700, 1199, 1200, 1201, 1500, 3000]


def fresh(r, n):
    """Bytes that are easy to tell apart."""
    k, s = r.randrange(256), r.choice([1, 1, 3, 7])
    return bytes((k + s * i + (i >> 8)) % 256 for i in range(n))


def addr(r, v6=None):
    v6 = r.random() < 0.4 if v6 is None else v6
    return bytes(r.randrange(256) for _ in range(16 if v6 else 4))


class Quic:
    """Writes a script; knows what it has asked for, not what the code does."""

    def __init__(self, r, cipher=None):
        self.r = r
        self.cipher = cipher or r.choice([AES128, AES128, AES256, CHACHA])
        self.ops = []
        self.next = {0: 0, 2: 2}
        self.open = []                  # streams that can still be added to
        self.all = []
        self.t = r.choice([0, 1, 999, 1000, 123456789, 1 << 40])

    def op(self, *a):
        self.ops.append(" ".join(str(x) for x in a))

    def clock(self):
        self.t += self.r.choice([0, 1, 10, 1000, 250000, 1 << 33])
        self.op("clock", self.t)

    def new(self, v6=None, params=None):
        r = self.r
        v6 = r.random() < 0.4 if v6 is None else v6
        if params is None:
            u = lambda: r.choice([0, 1, 100, 1 << 20, (1 << 32) - 1, 1 << 32, (1 << 62) - 1, r.getrandbits(62)])
            params = [u() for _ in range(6)] + [r.choice([0, 30000, 1 << 40]), r.choice([1200, 65527, u()]),
                                                r.choice([0, 3, 20]), r.choice([0, 1]), r.choice([0, 25, 1 << 13])]
        self.local, self.peer = addr(r, v6), addr(r, v6)
        self.op("clock", self.t)
        host = r.choice([b"a", b"example.org", b"www.example.com", b"h" * 200, b"localhost"])
        self.op("new", hx(host), hx(self.local), hx(self.peer), ",".join(map(str, params)))

    def secrets(self, level, size=None, cipher=None):
        n = size or (48 if self.cipher == AES256 else 32)
        return "s:%s:%s:%s:%d" % (level, "-" if level == "early" else hx(rb(self.r, n)), hx(rb(self.r, n)),
                                  self.cipher if cipher is None else cipher)

    def tls(self, *items):
        self.op("plan", "tls", ";".join(items))

    def recv(self, *items, **kw):
        self.op("recv", hx(kw.get("d", rb(self.r, self.r.choice([1, 21, 40, 1200])))), *items)

    def crypto(self, level, *step):
        """The peer's handshake data, and what the TLS library does with it."""
        if step:
            self.tls(*step)
        self.recv("c:%s:%s" % (level, hx(rb(self.r, self.r.choice([1, 20, 90, 1100])))))

    def data(self, level, n=None):
        return "d:%s:%s" % (level, hx(rb(self.r, n or self.r.choice([1, 20, 21, 300, 1500]))))

    def tp(self):
        return "done:" + hx(rb(self.r, self.r.choice([1, 20, 64])))

    def handshake(self, early=False):
        """A whole handshake, one of several ways of dividing it."""
        r = self.r
        self.tls(*([self.secrets("early")] if early else []) + [self.data("initial")])
        if r.random() < 0.5:
            self.op("cb", "i")
        self.op("plan", "pkt", "40,idle")
        self.op("send")
        self.op("send")
        if r.random() < 0.5:
            self.crypto("initial", self.secrets("handshake"))
            if r.random() < 0.5:
                self.crypto("handshake", r.choice(["want", "write"]))
            self.crypto("handshake", self.secrets("application"), self.data("handshake"), self.tp())
        else:
            self.crypto("initial", self.secrets("handshake"), r.choice(["want", "write"]))
            self.crypto("handshake", self.data("handshake"), self.secrets("application"), self.tp())
        self.op("cb", "k:initial:*", "k:handshake:*")

    def add(self, sid=None, n=None, fin=None, same=None):
        r = self.r
        if sid is None:
            sid = r.choice(self.open)
        n = r.choice(SIZES) if n is None else n
        d = same if same is not None else fresh(r, n)
        fin = r.random() < 0.15 if fin is None else fin
        self.op("add", sid, int(fin), hx(d))
        if fin:
            self.open.remove(sid)
        return sid

    def stream(self, kind=None):
        kind = self.r.choice([0, 0, 2]) if kind is None else kind
        sid = self.next[kind]
        self.next[kind] += 4
        self.open.append(sid)
        self.all.append(sid)
        return sid

    def text(self):
        return "\n".join(self.ops)


def rb(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def connected(r, **kw):
    q = Quic(r)
    q.new(**kw)
    q.handshake()
    return q


def one_stream(r):
    """A single stream, looked at closely."""
    q = connected(r)
    q.op("mark")
    sid = q.stream()
    chunks = r.choice([1, 1, 2, 3, 5])
    base = fresh(r, r.choice(SIZES))
    for k in range(chunks):
        last = k == chunks - 1
        c = r.random()
        n = 0 if c < 0.12 else None
        same = base if 0.12 <= c < 0.5 else None
        q.add(sid, n=n, same=same, fin=last and r.random() < 0.8)
        if r.random() < 0.4:
            plans(q)
            q.op(r.choice(["send", "flush"]))
        if r.random() < 0.3:
            acks(q)
    if sid in q.open and r.random() < 0.6:
        if r.random() < 0.5:
            q.op("flush")
        q.add(sid, n=0, fin=True)               # the end comes alone
    plans(q)
    q.op("flush")
    drain(q)
    return q.text()


def plans(q):
    """How the transport takes the next writes."""
    r = q.r
    c = r.random()
    if c < 0.5:
        q.op("plan", "write", ",".join(r.choice(["1", "2", "5", "19", "20", "21", "100", "1000", "1200", "1200",
                                                 "none", "blocked", "congested"])
                                       for _ in range(r.randint(1, 6))))
    if r.random() < 0.3:
        q.op("plan", "pkt", ",".join(r.choice(["0", "10", "idle", "idle", "1200"]) for _ in range(r.randint(1, 3))))
    if r.random() < 0.2:
        q.op("plan", "open", ",".join(r.choice(["ok", "blocked"]) for _ in range(r.randint(1, 2))))


def acks(q):
    r = q.r
    some = [x for x in q.all if r.random() < 0.6]
    items = []
    for x in some:
        items.append("a:%d:%s" % (x, r.choice(["*", "%50", "%10", "%90", "0", "%99"])))
    if items:
        if r.random() < 0.5:
            q.op("cb", *items)
        else:
            q.recv(*items)
            q.op("poll", 1)
    q.op("retx")


def drain(q):
    """Everything is sent and acknowledged."""
    q.op("flush")
    q.op("flush")
    q.op("retx")
    for x in q.all:
        q.op("cb", "a:%d:%%50" % x)
    q.op("retx")
    for x in q.all:
        q.op("cb", "a:%d:*" % x, *(["a:%d:0" % x] if q.r.random() < 0.5 else []))
    q.op("retx")
    q.op("cb", "k:initial:*", "k:handshake:*", "k:application:*")
    q.op("poll", 300)
    q.op("stat")
    for x in q.all:
        if q.r.random() < 0.3:
            q.op("cb", "a:%d:+%d" % (x, q.r.choice([1, 2, 5000])))


def many_streams(r):
    q = connected(r)
    q.op("mark")
    for _ in range(r.randint(4, 25)):
        c = r.random()
        if not q.open or (c < 0.2 and len(q.all) < 6):
            q.add(q.stream(), fin=r.random() < 0.2)
        elif c < 0.5:
            q.add()
        elif c < 0.6:
            q.add(n=r.choice([0, 0, 1]), fin=r.random() < 0.7)
        elif c < 0.8:
            plans(q)
            q.op(r.choice(["send", "send", "flush"]))
        elif c < 0.93:
            acks(q)
        else:
            q.clock()
    for x in list(q.open):
        if r.random() < 0.5:
            q.add(x, n=r.choice([0, 0, 5]), fin=True)
    drain(q)
    return q.text()


def early_data_order(r):
    """Data added before and during the handshake."""
    q = Quic(r)
    q.new()
    for _ in range(r.randint(1, 3)):
        q.add(q.stream(), fin=r.random() < 0.4)
    q.op("flush")
    q.handshake()
    if r.random() < 0.5:
        plans(q)
    drain(q)
    return q.text()


def errors(r):
    """The transport refuses."""
    q = connected(r)
    q.op("mark")
    for _ in range(r.randint(1, 3)):
        q.add(q.stream(), fin=r.random() < 0.4)
    c = r.randrange(4)
    if c == 0:
        q.op("plan", "open", r.choice(["error", "ok,error", "blocked,error"]))
    elif c == 1:
        q.op("plan", "write", r.choice(["shut", "10,shut", "blocked,shut"]))
    elif c == 2:
        q.op("plan", "pkt", r.choice(["error", "10,error", "idle,error"]))
    else:
        x = r.choice(q.all)
        q.op("send")
        q.op("cb", "a:%d:+1" % x)
        q.op("retx")
    q.op("send")
    q.op("send")
    drain(q)
    return q.text()


def quic_streams(r, big):
    for k in range(25 * big):
        yield "one-%d" % k, one_stream(r)
    for k in range(18 * big):
        yield "many-%d" % k, many_streams(r)
    for k in range(5 * big):
        yield "early-%d" % k, early_data_order(r)
    for k in range(5 * big):
        yield "error-%d" % k, errors(r)


# ------------------------------------------------------------ keys and handshake

def protections(q, n):
    r = q.r
    for _ in range(n):
        op = r.choice(["encrypt", "decrypt", "in_encrypt", "in_decrypt"])
        ks = 16 if op.startswith("in_") else KEYSIZE[q.cipher]
        if r.random() < 0.1:
            ks = r.choice([0, 15, 16, 17, 24, 32])
        d = rb(r, r.choice([0, 1, 15, 16, 17, 40, 400]))
        if r.random() < 0.25:                   # a packet that does not authenticate, a failing library
            d = rb(r, r.choice([16, 17, 40]))
            q.op("plan fail", "open" if op.endswith("decrypt") else "seal", 0)
        q.op("prot", op, hx(d), hx(rb(r, ks)), hx(rb(r, 12)), hx(rb(r, r.choice([0, 1, 5, 20, 30]))))
        op = r.choice(["mask", "in_mask"])
        ks = 16 if op == "in_mask" else KEYSIZE[q.cipher]
        if r.random() < 0.1 and (op == "in_mask" or q.cipher != CHACHA):
            ks = r.choice([15, 17, 24])
        s = rb(r, 16)
        if r.random() < 0.3:
            s = bytes(r.choice([0, 0x7f, 0x80, 0xff]) for _ in range(16))
        q.op("mask", op, hx(rb(r, ks)), hx(s))


def keys(r):
    q = Quic(r)
    q.new()
    if r.random() < 0.3:
        q.op("prot", "encrypt", "00", "00" * 16, "00" * 12, "-")
        q.op("mask", "mask", "00" * 16, "00" * 16)
        protections(q, 2) if r.random() < 0.3 else None
    q.handshake(early=r.random() < 0.4)
    protections(q, r.randint(2, 6))
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        q.op("cb", "u")
        protections(q, 1)
    if r.random() < 0.5:
        q.crypto("application")
        if r.random() < 0.3:
            q.op("cb", "u")
    return q.text()


def transcript(r):
    """Handshake data both ways, in pieces; acknowledged in pieces."""
    q = Quic(r)
    q.new()
    q.op("plan", "pkt", ",".join(r.choice(["20", "idle"]) for _ in range(8)))
    levels = ["initial", "initial", "handshake", "handshake"]
    early = False
    for k in range(r.randint(1, 3)):
        items = [q.data("initial") for _ in range(r.randint(0, 2))]
        if not early and r.random() < 0.3:
            early = True
            items.append(q.secrets("early"))
        q.tls(*(items or [r.choice(["want", "write"])]))
        q.op(r.choice(["send", "cb i"]))
        for _ in range(r.randint(0, 2)):
            q.op("cb", "k:initial:" + r.choice(["*", "0", "%50", "%30"]))
            q.op("retx")
        if r.random() < 0.2:
            q.op("cb", "k:%s:+%d" % (r.choice(["initial", "handshake", "application"]), r.choice([1, 7])))
    q.crypto("initial", *[q.data("initial") for _ in range(r.randint(0, 1))] + [q.secrets("handshake")])
    for _ in range(r.randint(0, 3)):
        q.crypto(r.choice(levels), *[q.data("handshake") for _ in range(r.randint(0, 2))] or ["want"])
        q.op("cb", "k:handshake:" + r.choice(["*", "0", "%50", "%30"]), "k:initial:%50")
        q.op("retx")
    q.op("flush")
    q.crypto("handshake", q.secrets("application"), q.data("handshake"), q.tp())
    q.op("retx")
    q.op("flush")
    for _ in range(r.randint(0, 3)):
        q.op("plan fail post 0") if r.random() < 0.1 else None
        q.crypto("application")
        q.op("poll", 2)
    q.op("cb", "k:initial:*", "k:handshake:%50")
    q.op("retx")
    q.op("cb", "k:handshake:*")
    q.op("retx")
    q.op("cb", "k:handshake:+1")
    return q.text()


def broken_handshake(r, c):
    q = Quic(r)
    q.new()
    if c == 0:                              # secrets at a level that has none
        q.tls(q.secrets("initial"))
        q.op(r.choice(["send", "cb i"]))
    elif c == 1:                            # no cipher, or one that is not known
        q.crypto("initial", q.secrets("handshake", cipher=r.choice([0, 0x03001304, 0x03001305, 0x03001300, 0x0300c02f])))
        q.op("poll", 2)
        q.op("cb", "u")
        q.op("prot", "encrypt", "00", "00" * 16, "00" * 12, "-")
        q.op("prot", "decrypt", "00" * 20, "00" * 16, "00" * 12, "-")
        q.op("mask", "mask", "00" * 16, "00" * 16)
    elif c == 2:
        q.op("plan fail", r.choice(["expand", "install", "submit", "provide"]), r.randrange(3))
        q.crypto("initial", q.secrets("handshake"), q.data("initial"))
        q.crypto("handshake", q.secrets("application"), q.data("handshake"))
        q.op("poll", 3)
    elif c == 3:
        q.op("plan fail", r.choice(["dtp", "rtp"]), 0)
        q.handshake()
        q.op("poll", 3)
    elif c == 4:
        q.crypto("initial", *r.choice([["err"], [q.data("initial"), "err"]]))
        q.op("poll", 3)
    elif c == 5:
        q.tls(q.data("initial"), "err")
        q.op(r.choice(["send", "cb i"]))
        q.op("send")
    elif c == 6:
        q.handshake()
        q.op("plan fail", r.choice(["expand", "install"]), r.randrange(6))
        q.op("cb", "u")
    elif c == 7:
        q.handshake()
        f = r.choice(["aead", "seal", "open", "aes"])
        q.op("plan fail", f, 0)
        protections(q, 2)
    else:
        q.op("cb", "u")
        q.op("prot", "encrypt", "00", "00" * 16, "00" * 12, "-")
        q.op("prot", "in_encrypt", "00", "00" * 16, "00" * 12, "-")
        q.crypto("initial", q.secrets("handshake"))
        q.op("plan fail", r.choice(["expand", "install"]), r.randrange(8))
        q.crypto("handshake", q.secrets("application"), "want")
        q.op("poll", 3)
    return q.text()


def quic_handshakes(r, big):
    for k in range(16 * big):
        yield "keys-%d" % k, keys(r)
    for k in range(16 * big):
        yield "transcript-%d" % k, transcript(r)
    for k in range(18 * big):
        yield "broken-%d" % k, broken_handshake(r, k % 9)


# ------------------------------------------------------------------- the interface

def receive_items(q):
    r = q.r
    items = []
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        c = r.random()
        sid = r.choice([0, 1, 3, 4, 7, 8, 400, (1 << 40) + 1])
        if c < 0.6:
            items.append("d:%d:%d:%s" % (sid, r.random() < 0.3, hx(rb(r, r.choice([0, 1, 20, 21, 300, 1200])))))
        elif c < 0.75:
            items.append("r:%d:%d:%d" % (sid, r.choice([0, 5, 1 << 40]), r.choice([0, 1, 0x10c, (1 << 62) - 1])))
        elif c < 0.9:
            items.append(r.choice(["o:%d" % sid, "x:%d:%d" % (sid, r.choice([0, 256])), "m:%d" % r.choice([0, 1, 1 << 60])]))
        else:
            items.append(r.choice(["s", "y", "e:-503", "e:-219", "v:0", "v:1", "e:-1"]))
    return items


def interface(r):
    q = Quic(r)
    q.new()
    if r.random() < 0.8:
        q.handshake(early=r.random() < 0.3)
    for _ in range(r.randint(4, 20)):
        c = r.random()
        if c < 0.4:
            q.recv(*receive_items(q))
            if r.random() < 0.7:
                q.op("poll", r.choice([1, 2, 10]))
        elif c < 0.5:
            q.op("poll", r.randint(1, 5))
        elif c < 0.6:
            q.clock()
        elif c < 0.68:
            now = q.t * 1000
            pick = lambda: r.choice([0, 1, now - 1 if now else 0, now, now + 1, now + 999, now + 1000, 2**64 - 1])
            if r.random() < 0.2:
                q.op("plan fail loss 0")
            q.op("expire", pick(), pick())
        elif c < 0.74:
            n = lambda: r.choice([0, 1, 999, 1000, 1001, 30000000, 1 << 60, 2**64 - 1, r.getrandbits(64)])
            q.op("timers", n(), n())
        elif c < 0.8:
            q.op("pref", hx(rb(r, 4)), hx(rb(r, 16)))
        elif c < 0.84:
            q.op("cid", r.choice([1, 4, 8, 18]))
        elif c < 0.88:
            q.op("cb", r.choice(["v:0", "v:1", "s", "y", "o:0", "x:0:0", "m:7"]))
        elif c < 0.91:
            q.op("adderr", r.choice([0, 4]))
        elif c < 0.96:
            if q.open and r.random() < 0.5:
                q.add(n=r.choice([1, 30, 1300]))
            else:
                q.add(q.stream(), n=r.choice([1, 30, 1300]))
            q.op("flush")
        else:
            q.op("plan", "pkt", r.choice(["1000", "idle", "error", "0,0"]))
            q.op(r.choice(["send", "flush"]))
    q.op("poll", 200)
    return q.text()


def quic_interface(r, big):
    for k in range(40 * big):
        yield "interface-%d" % k, interface(r)
