"""Scripts about logging (C26) and about values (C28)."""
from gens import *
import gens, sysgens, quicgens

LEVELS = ["trace", "debug", "info", "warning", "error"]
INTS = [0, 1, -1, 9, 10, 99, 100, 255, 256, -100, 65535, 99999, 1000000, 2147483647, -2147483647]
SGR = [b"\x1b[0m", b"\x1b[1;31m", b"\x1b[", b"\x1b", b"\x1b[38;2;1;2;3m"]


def ltext(r, braces=True):
    x = r.random()
    if x < 0.1:
        return b""
    if x < 0.5:
        return bytes(r.choice(b"abcxyz ,.()09%s%n\\\"'") for _ in range(r.randint(1, 30)))
    if x < 0.7:
        parts = [b"{}", b"{0}", b"{:x}", b"{", b"}", b"{{", b"%d", b"\n", b"\t", b"  "] if braces else [b"%d", b"\n", b" "]
        return b"".join(r.choice(parts + [b"a", b"-"]) for _ in range(r.randint(1, 8)))
    if x < 0.85:
        return "".join(r.choice("aéü€漢😀 ") for _ in range(r.randint(1, 12))).encode()
    return bytes(r.choice(b"ab ") for _ in range(r.choice([100, 499, 500, 501, 1023, 1024, 1500])))


def lmsg(r):
    """A message of up to three arguments."""
    n = r.randrange(4)
    f, args = b"", []
    for k in range(n + 1):
        if r.random() < 0.7:
            f += bytes(r.choice(b"abc :=%()/") for _ in range(r.randint(0, 12)))
        if r.random() < 0.15:
            f += r.choice([b"{{", b"}}", b"{{}}"])
        if k < n:
            f += b"{}"
            if r.random() < 0.4:
                args.append("i%d" % r.choice(INTS))
            else:
                t = ltext(r)
                if r.random() < 0.05:
                    t += r.choice(SGR) + b"z"
                args.append("s" + (t.hex() or "-"))
    return "lmsg %s %s %s" % (r.choice(LEVELS), hx(f), " ".join(args))


def messages(r, big):
    for k in range(60 * big):
        ops = []
        for _ in range(r.randint(2, 5)):
            ops.append("lset %s" % r.choice(["none", "discard", "keep", "keep", "console", "console", "source"]))
            for _ in range(r.randint(1, 6)):
                ops.append(lmsg(r))
        yield "msg-%d" % k, "\n".join(ops)
    # every level in every logger
    for k, how in enumerate(["none", "discard", "keep", "console", "source"]):
        yield "levels-%d" % k, "\n".join(["lset " + how] + ["lmsg %s %s" % (v, hx(b"m")) for v in LEVELS * 2])


def sample(r, gen, big, n, keep=lambda tid: True):
    """n of the scripts of another generator."""
    all = [x for x in gen(r, big) if keep(x[0]) and len(x[1]) < 40000]
    return r.sample(all, min(n, len(all)))


def observed(r, big):
    """Scripts of the other generators, without and with a logger."""
    small = lambda tid: not tid.startswith(("huge", "many", "big"))
    todo = [("dec", gens.frame_decodes, 1, 6), ("frm", gens.frames, 1, 4), ("hb", gens.header_blocks, 1, 25),
            ("hl", gens.header_lists, 1, 25), ("lit", gens.literals, 1, 3), ("huf", gens.huffmans, 1, 3),
            ("pi", gens.prefix_ints, 1, 3), ("seg", gens.segmentation, 1, 10), ("var", gens.varints, 1, 2),
            ("buf", gens.buffers, 1, 10), ("chn", gens.buffer_chains, 1, 10),
            ("r12", gens.r12, 1, 20), ("r13", gens.r13, 1, 20), ("r14", gens.r14, 1, 30),
            ("r15", gens.r15, 1, 30), ("rob", gens.robust, 1, 30), ("snd", sysgens.senders, 1, 12),
            ("e2e", sysgens.endtoend, 1, 12), ("iso", sysgens.isolation, 1, 12),
            ("hnd", sysgens.handles, 1, 15), ("lif", sysgens.lifetimes, 1, 15)]
    for name, gen, b, n in todo:
        for tid, s in sample(r, gen, b, n * big, small):
            yield "%s-%s" % (name, tid), "twin\n" + s


def qtext(r, k):
    """A text of a library; all of them differ."""
    t = b"%d:" % k + ltext(r).replace(b"\0", b"")
    return t


def quic_logs(r, big):
    for k in range(20 * big):
        q = quicgens.Quic(r)
        n = [0]

        def noise(times=2):
            for _ in range(r.randint(0, times)):
                n[0] += 1
                q.op("log", r.choice(["s", "s", "ds", "x"]), qtext(r, n[0]).hex(), r.choice([0, -1, 7, 2147483647]))

        def errs():
            some = []
            for _ in range(r.randint(0, 3)):
                n[0] += 1
                some.append((qtext(r, n[0])).hex())
            if some:
                q.op("plan", "errs", ",".join(some))

        q.op("logger", r.choice(["on", "on", "on", "off"]))
        q.new()
        noise()
        errs()
        how = r.randrange(5)
        if how == 0:
            q.tls(q.data("initial"), "err")
            q.op(r.choice(["send", "cb i"]))
        elif how == 1:
            q.crypto("initial", *r.choice([["err"], [q.data("initial"), "err"]]))
        elif how == 2:
            q.op("plan fail provide", r.randrange(3))
            q.crypto("initial", q.secrets("handshake"), q.data("initial"))
            noise()
            q.crypto("handshake", q.secrets("application"), q.data("handshake"), q.tp())
            q.crypto("application")
        elif how == 3:
            q.handshake()
            noise()
            q.op("plan fail post 0")
            q.crypto("application")
        else:
            q.op("plan fail", r.choice(["expand", "install", "submit"]), r.randrange(3))
            q.crypto("initial", q.secrets("handshake"), q.data("initial"))
        q.op("poll", 3)
        noise(4)
        if r.random() < 0.5:
            q.op("logger", r.choice(["on", "off"]))
            noise(4)
        errs()
        q.tls("err")
        q.crypto("initial")
        q.op("poll", 3)
        noise()
        yield "qlog-%d" % k, q.text()
    for name, gen, m in (("str", quicgens.quic_streams, 6), ("hsk", quicgens.quic_handshakes, 8),
                         ("ifc", quicgens.quic_interface, 8)):
        for tid, s in sample(r, gen, 1, m * big):
            yield "%s-%s" % (name, tid), "logger on\n" + s


# ------------------------------------------------------------------------ C28

def raddr(r, n=None):
    n = n or r.choice([4, 4, 16])
    return bytes(r.choice([0, 1, 9, 10, 19, 99, 100, 101, 127, 128, 199, 200, 254, 255, r.getrandbits(8)]) for _ in range(n))


def near(r, b):
    """The same bytes, or almost."""
    x = r.random()
    if x < 0.4 or not b:
        return b
    b = bytearray(b)
    if x < 0.7:
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return bytes(b)
    if x < 0.8:
        return bytes(b[:-1])
    if x < 0.9:
        return bytes(b) + rbytes(r, 1)
    return rbytes(r, r.randint(0, 12))


def vtext(r):
    x = r.random()
    if x < 0.1:
        return b""
    if x < 0.6:
        return bytes(r.choice(b"abzAMZ@[`{:-09 ") for _ in range(r.randint(1, 20)))
    if x < 0.8:
        return rbytes(r, r.randint(1, 40))
    return bytes(r.choice([0, 1, 127, 128, 255, 65]) for _ in range(r.randint(1, 300)))


def values(r, big):
    ops = []
    for _ in range(200 * big):
        a = raddr(r)
        b = near(r, a) if r.random() < 0.6 else raddr(r, len(a))
        if len(b) not in (4, 16):
            b = raddr(r)
        ops.append("v addr %s %s" % (a.hex(), b.hex()))
        ops.append("v path %s %d %s %d" % (raddr(r).hex(), r.choice([0, 1, 80, 443, 255, 256, 32768, 65535, r.getrandbits(16)]),
                                           raddr(r).hex(), r.choice([0, 1, 443, 8080, 65535, r.getrandbits(16)])))
        ops.append("v host " + hx(vtext(r)))
        a = vtext(r)
        ops.append("v view %s %s" % (hx(a), hx(near(r, a))))
        n, v = vtext(r), vtext(r)
        n2, v2 = (near(r, n), near(r, v)) if r.random() < 0.7 else (v, n)
        ops.append("v header %s %s %s %s" % (hx(n), hx(v), hx(n2), hx(v2)))
        ops.append("v event %d %d %s %d" % (r.choice([0, 1, 2, 3, 4, rint(r), MAX62]), r.random() < 0.5,
                                            hx(vtext(r)), r.choice([0, 1, 0xff, rint(r, 64), MAX64])))
        ops.append("v hevent %d %d %s %s %s %s" % (rint(r), r.random() < 0.5, hx(vtext(r)), hx(vtext(r)), hx(vtext(r)),
                                                   " ".join(str(rint(r, 64)) for _ in range(4))))
    r.shuffle(ops)
    # every byte as a character of a header's name, and of an address
    for c in range(256):
        ops.append("v header %s %s %s %s" % (bytes([97, c, 98]).hex(), hx(b"v"), bytes([c]).hex(), hx(b"v")))
        ops.append("v addr %s %s" % (bytes([c, 255 - c, c ^ 85, 1]).hex(), bytes([c, 255 - c, c ^ 85, 0]).hex()))
    for k, (tid, s) in enumerate(batch("val", ops, 40)):
        yield tid, s
    yield "errors", "v errors\nv errors"
