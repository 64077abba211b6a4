"""Script generators. Every generator yields (trace id, script) pairs; sizes
depend on the tier, choices on the seed."""
import random
from wire import *

MAX62 = (1 << 62) - 1
MAX64 = (1 << 64) - 1
BOUNDS = sorted({v for b in (0, 1, 63, 64, 255, 256, 16383, 16384, 65535, 65536,
                             (1 << 30) - 1, 1 << 30, (1 << 32) - 1, 1 << 32,
                             (1 << 61), MAX62) for v in (b - 1, b, b + 1)
                 if 0 <= v <= MAX62})
BIG = [1 << 62, (1 << 62) + 1, (1 << 62) + 63, 1 << 63, MAX64 - 1, MAX64,
       (1 << 63) - 1, 3 << 62, (1 << 62) + (1 << 30)]


def rint(r, bits=62):
    return r.getrandbits(r.randint(1, bits))


def rbytes(r, n, alpha=None):
    if alpha:
        return bytes(r.choice(alpha) for _ in range(n))
    return bytes(r.getrandbits(8) for _ in range(n))


def cuts(r, n):
    """Sizes that cut n bytes, with empty pieces."""
    how = r.randrange(5)
    if how == 0 or n == 0:
        return r.choice(["-", "0", "0.0"])
    if how == 1:
        return ".".join("1" for _ in range(min(n, 64)))
    if how == 2:
        return str(r.randint(0, n))
    if how == 3:
        return ".".join(str(r.randint(0, 3)) for _ in range(min(n, 40)))
    return ".".join(str(r.randint(0, max(1, n // 2))) for _ in range(r.randint(1, 5)))


KINDS = ["b", "s", "s", "lb", "lbc", "ls", "lsc"]


def dec(r, what, b, p=0, kind=None, junk=True):
    kind = kind or r.choice(KINDS)
    skip = r.choice([0, 0, 0, 1, 3]) if junk else 0
    b = rbytes(r, skip) + b
    c = cuts(r, len(b)) if kind[0] == "s" or kind[1:2] == "s" else "-"
    return "dec %s %s %d %s %d %s" % (kind, c, skip, what, p, hx(b))


def batch(name, ops, n=25):
    ops = list(ops)
    for k in range(0, len(ops), n):
        yield "%s-%d" % (name, k // n), "\n".join(ops[k:k + n])


# ---------------------------------------------------------------- C01 varint

def varints(r, big):
    ops = []
    vals = BOUNDS + BIG + [rint(r) for _ in range(400 * big)] + \
        [1 << k for k in range(64)] + [(1 << k) - 1 for k in range(1, 65)] + \
        [rint(r, 64) | 1 << 63 for _ in range(10)] + [0x0102030405060708, 0x3f80000000000001]
    for v in vals:
        ops.append("venc %d" % v)
    for v in vals:
        if v > MAX62:
            continue
        for n in (1, 2, 4, 8):
            if v < 1 << (8 * n - 2) and (r.random() < 0.6 or varint(v) == varint(v, n)):
                e = varint(v, n)
                ops.append(dec(r, "varint", e + rbytes(r, r.choice([0, 0, 1, 2, 7, 30]))))
                if r.random() < 0.4:
                    ops.append(dec(r, "varint", e[:r.randint(0, len(e) - 1)]))
    for first in range(256):
        ops.append(dec(r, "varint", bytes([first]) + rbytes(r, r.choice([0, 1, 3, 7, 8]))))
    for k in KINDS:                     # around the inline capacity of buffers
        for n in range(18, 26):
            v = r.choice(BOUNDS)
            ops.append(dec(r, "varint", varint(v) + rbytes(r, n - len(varint(v))), kind=k,
                           junk=False))
    yield from batch("varint", ops, 40)
    yield from chains(r, 12 * big, "varint", lambda: varint(r.choice(BOUNDS), r.choice([8, 8, None])))


def item_chain(r, what, item, p=0, junk=None):
    """Feeds an item piece by piece into a chain, decoding after every piece."""
    ops, data = [], item
    c = r.randint(0, 3)
    k = 0
    # two items in a row
    while k < len(data):
        n = min(len(data) - k, r.choice([1, 1, 1, 2, 3, 5, 8, 21, 0]))
        ops.append("s %s %d %s" % (r.choice(["push", "push", "pushpart"]), c,
                                   hx(data[k:k + n])))
        if ops[-1].startswith("s pushpart"):
            pad = r.randint(0, 25)
            ops[-1] = "s pushpart %d %d %s" % (c, pad, hx(rbytes(r, pad) + data[k:k + n]))
        k += n
        if what == "frame" and r.random() < 0.4:
            ops.append("s dec %d peek 0" % c)
        ops.append("s dec %d %s %d" % (c, what, p))
    for _ in range(3):
        ops.append("s dec %d %s %d" % (c, what, p))
    ops.append("s look %d 0 0 0" % c)
    return ops


def chains(r, n, what, make, p=0):
    for k in range(n):
        item = b"".join(make() for _ in range(r.randint(1, 3)))
        pp = p() if callable(p) else p
        yield "chain-%s-%d" % (what, k), "\n".join(item_chain(r, what, item, pp))


# ---------------------------------------------------------------- C02 frames

NFIELDS = {"data": 1, "headers": 1, "priority": 5, "cancel_push": 1, "settings": 4,
           "push_promise": 2, "goaway": 1, "max_push_id": 1, "duplicate_push": 1}


def field(r, over=0.0):
    if r.random() < over:
        return r.choice(BIG)
    return r.choice(BOUNDS) if r.random() < 0.6 else rint(r)


def fields(r, t, over=0.0):
    if t == "priority":
        return [r.randrange(4), r.randrange(4), field(r, over), field(r, over), r.randrange(256)]
    return [field(r, over) for _ in range(NFIELDS[t])]


def frame_bytes(t, f, r=None):
    n = lambda v: None
    if r is not None and r.random() < 0.3:
        n = lambda v: r.choice([x for x in (1, 2, 4, 8) if v < 1 << (8 * x - 2)])
    if t in ("data", "headers"):
        return varint(TYPES[t], n(TYPES[t])) + varint(f[0], n(f[0]))
    if t == "priority":
        p = bytes([64 * f[0] + 16 * f[1] + (r.randrange(16) if r and r.random() < .3 else 0)]) \
            + varint(f[2], n(f[2])) + varint(f[3], n(f[3])) + bytes([f[4]])
    elif t == "settings":
        ids = [6, 9, 1, 7]
        pairs = [(i, v) for i, v in zip(ids, f)]
        if r is not None and r.random() < 0.7:
            r.shuffle(pairs)
            pairs = [x for x in pairs if r.random() < 0.85]
            for _ in range(r.choice([0, 0, 1, 2])):
                pairs.insert(r.randint(0, len(pairs)), (r.choice([2, 3, 5, 8, 10, 0x1f2, 256 + 6, (1 << 32) + 6, MAX62]), rint(r)))
            if pairs and r.random() < 0.3:
                pairs.insert(r.randint(0, len(pairs)), (r.choice(ids), rint(r)))
        p = b"".join(varint(a, n(a)) + varint(b, n(b)) for a, b in pairs)
    elif t == "push_promise":
        i = varint(f[0], n(f[0]))
        ln = f[1] + len(i)
        if ln > MAX62:
            ln = MAX62
        return varint(5, n(5)) + varint(ln, n(ln)) + i
    else:
        p = varint(f[0], n(f[0]))
    return varint(TYPES[t], n(TYPES[t])) + varint(len(p), n(len(p))) + p


def fnum(f):
    return " ".join(str(x) for x in f)


def frames(r, big):
    ops = []
    for t in TYPES:
        cand = []
        for k in range(NFIELDS[t]):
            for v in BOUNDS:
                f = fields(r, t)
                if t == "priority" and k in (0, 1):
                    f[k] = v % 4
                elif t == "priority" and k == 4:
                    f[k] = v % 256
                else:
                    f[k] = v
                cand.append(f)
        cand += [fields(r, t) for _ in range(25 * big)]
        for f in cand:
            ops.append("fenc %s %s" % (t, fnum(f)))
            if r.random() < 0.7:
                ops.append(dec(r, "frame", frame_bytes(t, f) + rbytes(r, r.choice([0, 1, 5, 25]))))
        for k in range(NFIELDS[t]):
            if t == "priority" and k not in (2, 3):
                continue
            for v in BIG:
                f = fields(r, t)
                f[k] = v
                ops.append("fenc %s %s" % (t, fnum(f)))
    for i in BOUNDS:                    # total payload just (not) representable
        n = len(varint(i))
        for v in (MAX62, MAX62 - n, MAX62 - n + 1, MAX62 - n - 1):
            ops.append("fenc push_promise %d %d" % (i, v))
    for a in range(4):
        for b in range(4):
            ops.append("fenc priority %d %d %s %s %d" % (a, b, rint(r), rint(r), r.randrange(256)))
    # every combination of zero settings
    for m in range(16):
        ops.append("fenc settings " + " ".join("0" if m >> k & 1 else str(rint(r)) for k in range(4)))
    ops.append("fenc settings %d 0 0 0" % MAX62)
    # equality
    names = list(TYPES)
    for t1 in names:
        for t2 in names:
            f1, f2 = fields(r, t1), fields(r, t2)
            if len(f1) == len(f2) and r.random() < 0.7:
                f2 = list(f1) if t2 != "priority" else f2
            ops.append("feq %s %d %s %s %d %s" % (t1, len(f1), fnum(f1), t2, len(f2), fnum(f2)))
    for t in names:
        for k in range(NFIELDS[t]):
            for _ in range(3):
                f1 = fields(r, t)
                f2 = list(f1)
                ops.append("feq %s %d %s %s %d %s" % (t, len(f1), fnum(f1), t, len(f2), fnum(f2)))
                f2[k] = (f2[k] + 1) % 4 if t == "priority" and k < 2 else f2[k] ^ (1 << r.randrange(8))
                ops.append("feq %s %d %s %s %d %s" % (t, len(f1), fnum(f1), t, len(f2), fnum(f2)))
                if not (t == "priority" and k in (0, 1, 4)):
                    f2[k] = (f1[k] + (1 << 32)) % (1 << 62)
                    ops.append("feq %s %d %s %s %d %s" % (t, len(f1), fnum(f1), t, len(f2), fnum(f2)))
    yield from batch("frame", ops, 30)


# ---------------------------------------------------------------- C03

def rframe(r, unknown=0.3, small=True):
    if r.random() < unknown:
        t = r.choice(UNKNOWN) if r.random() < 0.7 else 0x1f * r.randint(0, 1000) + 0x21
        n = r.choice([0, 0, 1, 2, 5, 19, 20, 21, 22, 40, 64])
        return frame(t, rbytes(r, n), tn=None if r.random() < .8 else 8,
                     ln=r.choice([None, None, 2, 4, 8]))
    t = r.choice(list(TYPES))
    return frame_bytes(t, fields(r, t), r)


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(6)
        if k == 0 and b:
            b[r.randrange(len(b))] = r.getrandbits(8)
        elif k == 1 and b:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif k == 2 and b:
            del b[r.randrange(len(b))]
        elif k == 3:
            b.insert(r.randint(0, len(b)), r.getrandbits(8))
        elif k == 4 and b:
            del b[r.randrange(len(b)):]
        elif k == 5 and len(b) > 1:
            b[1] = (b[1] + r.choice([-2, -1, 1, 2])) % 256
    return bytes(b)


def frame_inputs(r, big):
    out = []
    for t, c in TYPES.items():              # declared length vs. fields
        for _ in range(6 * big):
            f = fields(r, t)
            b = frame_bytes(t, f)
            if t in ("data", "headers"):
                out.append(b + rbytes(r, r.randint(0, 5)))
                continue
            # rewrite the length
            pay = b[len(varint(c)) + 1:] if t != "push_promise" else varint(f[0])
            for d in (-3, -2, -1, 0, 1, 2, 8, 100):
                n = len(pay) + d
                if n >= 0:
                    extra = max(d, 0) if r.random() < 0.7 else r.randint(0, 10)
                    out.append(varint(c) + varint(n) + pay + rbytes(r, extra))
            out.append(varint(c) + varint(0) + rbytes(r, r.choice([0, 1, 9])))
            out.append(varint(c) + varint(r.choice(BOUNDS)) + pay)
    for _ in range(150 * big):
        out.append(b"".join(rframe(r, 0.5) for _ in range(r.randint(1, 4))))
        out.append(mutate(r, b"".join(rframe(r, 0.4) for _ in range(r.randint(1, 3)))))
    for _ in range(60 * big):
        out.append(rbytes(r, r.choice([0, 1, 2, 3, 8, 20, 21, 30]), [0, 1, 2, 3, 4, 5, 6, 7, 9, 13, 14, 64, 128, 192, 255]))
        # unknown frames whose payload looks like known frames
        inner = b"".join(rframe(r, 0.1) for _ in range(2))
        out.append(frame(r.choice(UNKNOWN), inner) + rframe(r, 0.1))
        out.append(frame(r.choice(UNKNOWN), inner, length=len(inner) + r.choice([1, 5, 1 << 20, 1 << 40])))
        out.append(frame("settings", settings([(r.choice([6, 9, 1, 7, 2, 11]), rint(r)) for _ in range(r.randint(0, 6))]),
                         ln=r.choice([None, 2, 4, 8])))
    # settings frames with many entries, the ones that count anywhere
    for n in (20, 63, 64, 65, 100, 130, 300):
        out.append(frame("settings", settings(manysettings(r, n))) + frame_bytes("goaway", [4]))
    for n in (100, 1000, 20000):            # long unknown frames
        out.append(frame(0x21, rbytes(r, n)) + frame_bytes("goaway", [4]))
    return out


def manysettings(r, n):
    """n settings, few of them known; unknown ones share the low bits of a known one."""
    known = [6, 9, 1, 7]
    odd = [2, 5, 8, 11, 33] + [k + (1 << b) for k in known for b in (5, 8, 16, 32)]
    pairs = [(r.choice(odd), rint(r)) for _ in range(max(0, n - 3))]
    for _ in range(n - len(pairs)):
        pairs.insert(r.choice([0, len(pairs) // 2, len(pairs), len(pairs)]), (r.choice(known), rint(r)))
    return pairs


def frame_decodes(r, big):
    ops = []
    for b in frame_inputs(r, big):
        ops.append(dec(r, "frame", b))
        ops.append(dec(r, "peek", b))
    yield from batch("fdec", ops, 20)
    yield from chains(r, 30 * big, "frame", lambda: rframe(r, 0.4))


# ---------------------------------------------------------------- C04

def items(r):
    t = r.choice(list(TYPES))
    what = r.randrange(6)
    if what == 0:
        return "varint", 0, varint(field(r), r.choice([8, None, None]) )
    if what == 1:
        return "frame", 0, frame_bytes(t, fields(r, t), r)
    if what == 2:
        return "frame", 0, frame(r.choice(UNKNOWN), rbytes(r, r.randint(0, 9))) + frame_bytes(t, fields(r, t))
    if what == 3:
        p = r.choice([3, 4, 6, 7])
        return "pint", p, pint(r.choice(PVALS(p)), p, r.randrange(1 << (8 - p)) << p)
    if what == 4:
        p = r.choice([3, 7])
        return "lit", p, literal(rtext(r), p, 0, r.choice([None, True, False]))
    s = huff(rtext(r))
    return "huff", len(s), s


def PVALS(p):
    m = (1 << p) - 1
    out = [0, 1, m - 1, m, m + 1, m + 127, m + 128, m + 129, 255, 256, 300, 1337, 16383, 16384,
           (1 << 32) - 1, 1 << 32, (1 << 32) + m, MAX62, MAX62 + 1, (1 << 63) - 1, 1 << 63, MAX64 - 1, MAX64,
           MAX64 - m, MAX64 - m + 1, MAX64 - m - 1]
    for k in range(1, 10):
        out += [m + (1 << 7 * k) - 1, m + (1 << 7 * k)]
    return [v for v in out if 0 <= v <= MAX64]


COMMON = list(b"abcdefghijklmnopqrstuvwxyz0123456789-:/. ")


def rtext(r, maxn=30):
    n = r.choice([0, 1, 2, 3, 5, 6, 7, 8, 14, 15, 16, 18, 19, 20, 21, 22, 30, 40]) if maxn >= 30 \
        else r.randint(0, maxn)
    k = r.randrange(4)
    if k == 0:
        return rbytes(r, n, COMMON)
    if k == 1:
        return rbytes(r, n)
    if k == 2:
        return rbytes(r, n, COMMON + [0, 255, 10, 127, 65, 90])
    return rbytes(r, n, list(range(0, 33)) + list(range(120, 256)))


def segmentation(r, big):
    ops, tr = [], []
    for _ in range(130 * big):
        what, p, b = items(r)
        tail = rbytes(r, r.choice([0, 0, 2, 22]))
        for k in range(0, len(b)) if len(b) < 12 else sorted(r.sample(range(len(b)), 8)):
            ops.append(dec(r, what, b[:k], p))
        for _ in range(2):
            ops.append(dec(r, what, b + tail, p))
        if what == "frame":
            ops.append(dec(r, "peek", b[:r.randint(0, len(b))], p))
        if r.random() < 0.15 and what != "huff":
            ops.append(dec(r, what, mutate(r, b), p))
    yield from batch("seg", ops, 25)
    for k in range(100 * big):
        what, p, b = items(r)
        if what != "huff":
            b = b + r.choice([b"", b, items(r)[2]])
        yield "feed-%s-%d" % (what, k), "\n".join(item_chain(r, what, b, p))
    # header decoders fed piece by piece
    for k in range(60 * big):
        yield "hfeed-%d" % k, header_feed(r, block(r, r.randint(1, 4)))
    # look-aheads and readers over chains
    for k in range(25 * big):
        ops = []
        for _ in range(r.randint(1, 6)):
            ops.append("s push 0 " + hx(rbytes(r, r.choice([0, 0, 1, 2, 20, 21, 30]))))
            ops.append("s look 0 %d %d %d" % (r.randint(0, 40), r.randint(0, 40), r.randint(0, 40)))
            if r.random() < 0.3:
                ops.append("s consume 0 %d" % r.randint(0, 9))
        for n in (0, 1, 5, 19, 20, 21, 22, 40):
            ops.append("b new 1 " + hx(rbytes(r, n)))
            ops.append("b look 1 %d %d %d" % (r.randint(0, n), r.randint(0, n), r.randint(0, n)))
            ops.append("b look 1 %d %d %d" % (n, 0, 0))
        yield "look-%d" % k, "\n".join(ops)


# ---------------------------------------------------------------- C05

def prefix_ints(r, big):
    ops = []
    for p in range(1, 8):
        vals = PVALS(p) + [rint(r, 64) for _ in range(15 * big)]
        for v in vals:
            ops.append("penc %d %d %d" % (v, p, r.randrange(1 << (8 - p)) << p))
            e = pint(v, p, r.randrange(1 << (8 - p)) << p)
            ops.append(dec(r, "pint", e + rbytes(r, r.choice([0, 0, 1, 5, 20])), p))
            if r.random() < 0.3 and len(e) > 1:
                ops.append(dec(r, "pint", e[:r.randint(0, len(e) - 1)], p))
        m = (1 << p) - 1
        for _ in range(25 * big):            # overlong, overflowing, random
            n = r.choice([1, 2, 5, 8, 9, 9, 9, 10, 10, 11, 12, 15])
            d = bytes(r.choice([0x80, 0xff, 0x81, r.getrandbits(8) | 128]) for _ in range(n))
            d += bytes([r.choice([0, 1, 2, 127, r.randrange(128)])]) if r.random() < 0.85 else b""
            ops.append(dec(r, "pint", bytes([m + (r.randrange(1 << (8 - p)) << p)]) + d, p))
        for v in (MAX64 + 1, MAX64 + m, MAX64 + 2 * m, 1 << 65, 1 << 69, (1 << 70) - 1, 1 << 70, 1 << 71,
                  MAX64 + (1 << 32)):
            ops.append(dec(r, "pint", pint(v, p), p))
            if r.random() < 0.5:
                ops.append(dec(r, "pint", pint(v, p) + b"\0", p))
        for v in PVALS(p)[::3]:              # padded with zero digits
            e = bytearray(pint(v, p))
            if len(e) > 1:
                e[-1] |= 128
                e += bytes([0x80] * r.randint(0, 3) + [0])
                ops.append(dec(r, "pint", bytes(e), p))
    yield from batch("pint", ops, 30)
    yield from chains(r, 25 * big, "pint", lambda: pint(rint(r, 64), 5), 5)


# ---------------------------------------------------------------- C06

EOS = "1" * 30


def frombits(bits, pad="1"):
    bits += pad * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def bitsof(s):
    return "".join(format(HUFF[c][0], "0%db" % HUFF[c][1]) for c in s)


def huffmans(r, big):
    ops = []
    strings = [bytes([c]) for c in range(256)] + [b"", b"0", b"www.example.com", b"no-cache"]
    for c in range(256):                     # every symbol after every phase
        strings.append(rbytes(r, r.randint(0, 7), [48, 49, 97, 45, 32, 38, 58]) + bytes([c])
                       + rbytes(r, r.randint(0, 3)))
    strings += [rtext(r) for _ in range(120 * big)]
    strings += [rbytes(r, n) for n in (63, 64, 100, 127, 128, 200)]
    if big > 1:
        strings += [bytes([a, b]) for a in range(0, 256, 3) for b in range(0, 256, 5)]
    for s in strings:
        ops.append("henc " + hx(s))
        e = huff(s)
        ops.append(dec(r, "huff", e + rbytes(r, r.choice([0, 0, 1, 3, 22])), len(e)))
    for _ in range(150 * big):
        s = rtext(r, 6)
        bits = bitsof(s)
        k = r.randrange(8)
        if k == 0:
            b = frombits(bits, "0")
        elif k == 1:
            b = frombits(bits) + b"\xff"
        elif k == 2:
            b = frombits(bits + EOS)
        elif k == 3:
            b = frombits(bits + EOS[:r.randint(1, 29)])
        elif k == 4:
            b = frombits(bits + r.choice(["0", "10", "110", "1110", "11110", "111110", "1111110"]), r.choice("01"))
        elif k == 5:
            b = mutate(r, frombits(bits))
        elif k == 6:
            b = rbytes(r, r.choice([1, 2, 4, 8]), [0xff, 0xfe, 0xff, 0x7f, r.getrandbits(8)])
        else:
            b = rbytes(r, r.randint(1, 8))
        ops.append(dec(r, "huff", b, len(b)))
        if r.random() < 0.3:
            ops.append(dec(r, "huff", b, r.randint(0, len(b))))
            ops.append(dec(r, "huff", b, len(b) + r.randint(1, 4)))
    # all padding lengths, right and wrong
    for c in (48, 97, 45, 38, 0, 1, 10, 255, 92):
        for pre in range(8):
            bits = bitsof(b"0" * pre + bytes([c]))
            n = -len(bits) % 8
            for pad in range(1 << n) if n <= 4 else [r.randrange(1 << n) for _ in range(4)] + [(1 << n) - 1]:
                b = frombits(bits + (format(pad, "0%db" % n) if n else ""))
                ops.append(dec(r, "huff", b, len(b)))
    for n in range(1, 6):
        ops.append(dec(r, "huff", b"\xff" * n, n))
    # every way four bits can continue every incomplete code
    codes = [format(c, "0%db" % n) for c, n in HUFF]
    inner = sorted({c[:i] for c in codes + [EOS] for i in range(len(c))})
    for w in inner:
        for q in range(16):
            k = r.choice([k for k in range(8) if (5 * k + len(w)) % 4 == 0])
            bits = "".join(codes[r.choice(b"012aceiost")] for _ in range(k)) + w + format(q, "04b")
            if r.random() < 0.7:            # on to a whole symbol
                rest = bits[5 * k:]
                while True:
                    m = [c for c in codes if rest.startswith(c)]
                    if not m:
                        break
                    rest = rest[len(m[0]):]
                m = [c for c in codes if c.startswith(rest)]
                if rest and m:
                    bits += r.choice(m)[len(rest):]
            b = frombits(bits)
            ops.append(dec(r, "huff", b, len(b), "b", junk=False))
    for b0 in range(256):
        ops.append(dec(r, "huff", bytes([b0]), 1, "b"))
    yield from batch("huff", ops, 25)
    # more bits, and more bytes, than 16 bits count
    for k, s in enumerate((b"a" * 13108, b"0" * r.randint(52429, 52450) + b"~", b"~" * 37500)):
        e = huff(s)
        yield "hlong-%d" % k, "henc %s\ndec b - 0 huff %d %s" % (hx(s), len(e), hx(e + b"q"))


# ---------------------------------------------------------------- C07

def literals(r, big):
    ops = []
    strs = [rtext(r) for _ in range(150 * big)] + [b"", b"a", b"0" * 6, b"0" * 7, b"0" * 8]
    # lengths around the limits of the prefix, Huffman coded and not
    for n in (5, 6, 7, 8, 9, 10, 11, 12, 13, 126, 127, 128, 129, 134, 135, 200, 203, 204, 255, 256, 300):
        strs += [rbytes(r, n, [48, 49, 97, 99]), rbytes(r, n, [0, 200, 255]), rbytes(r, n, COMMON)]
    # strings whose Huffman form is just as long
    for _ in range(60 * big):
        s = rbytes(r, r.randint(1, 12), [48, 58, 66, 38, 33, 35, 36, 0, 123, 94, 92])
        strs.append(s)
        if abs(len(huff(s)) - len(s)) <= 1:
            strs.append(s + b"a")
    for s in strs:
        for p in (3, 7):
            if p == 3 and r.random() < 0.4:
                continue
            high = r.randrange(1 << (7 - p)) << (p + 1)
            ops.append("lenc %d %d %s" % (p, high, hx(s)))
            e = literal(s, p, high, r.choice([None, None, True, False]))
            ops.append(dec(r, "lit", e + rbytes(r, r.choice([0, 0, 1, 9])), p))
            if r.random() < 0.35:
                ops.append(dec(r, "lit", e[:r.randint(0, len(e) - 1)], p))
            if r.random() < 0.25:
                ops.append(dec(r, "lit", mutate(r, e), p))
    for _ in range(40 * big):                # huge lengths, bad bodies
        p = r.choice([3, 7])
        h = r.choice([0, 1 << p])
        ops.append(dec(r, "lit", pint(r.choice([40, 1000, 1 << 31, (1 << 32) + 3, MAX62, MAX64 - 7, MAX64]), p, h) + rbytes(r, 5), p))
        bad = frombits(bitsof(rtext(r, 5)) + EOS)
        ops.append(dec(r, "lit", pint(len(bad), p, 1 << p) + bad + b"xyz", p))
        ok = huff(b"abcde")
        ops.append(dec(r, "lit", pint(len(ok) + 1, p, 1 << p) + ok + b"\xffq", p))
    yield from batch("lit", ops, 20)
    for k, s in enumerate((b"~" * 65536, b"a" * 104858, b"0" * r.randint(13100, 13110), b"~" * 70000)):
        p = r.choice([3, 7])
        e = literal(s, p)
        yield "llong-%d" % k, "lenc %d 0 %s\ndec %s - 0 lit %d %s\ndec b - 0 lit %d %s" % (
            p, hx(s), r.choice(["b", "lb"]), p, hx(e + b"q"), p, hx(e[:-1]))
    yield from chains(r, 25 * big, "lit", lambda: literal(rtext(r, 12), 7), 7)


# ---------------------------------------------------------------- QPACK

def rname(r, upper=False):
    k = r.randrange(5)
    if k == 0:
        n = r.choice(STATIC)[0]
    elif k == 1:
        n = mutate(r, r.choice(STATIC)[0])
    elif k == 2:
        n = rbytes(r, r.choice([0, 1, 2, 6, 7, 8, 19, 20, 21, 30]), COMMON)
    else:
        n = rtext(r)
    n = bytes(c for c in n if not 65 <= c <= 90)
    if upper:
        k = r.randint(0, len(n))
        n = n[:k] + bytes([r.choice([65, 90, r.randint(65, 90)])]) + n[k:]
    return n


def rheader(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice(STATIC)
    if k == 1:                               # near misses
        n, v = r.choice(STATIC)
        m = r.randrange(5)
        if m == 0:
            return n, v + b"x"
        if m == 1:
            return n, v[:-1]
        if m == 2:
            return bytes(c for c in mutate(r, n) if not 65 <= c <= 90), v
        if m == 3:
            return n, r.choice(STATIC)[1]
        return n, v.upper() if v != v.upper() else v.lower()
    return rname(r), rtext(r)


def qop(r, q, n, v, how=None):
    return "qe %d %s %s %s" % (q, how or r.choice(["buf", "raw"]), hx(n), hx(v))


def header_lists(r, big):
    """Encoding; what was encoded is decoded back by the second part."""
    ops = []
    for k, (n, v) in enumerate(STATIC):
        ops.append(qop(r, k, n, v))
        for w in (b"", v + b"!", v[:-1], v + v, b"x"):
            ops.append(qop(r, k, n, w))
        ops.append(qop(r, k, n[:-1], v))
        ops.append(qop(r, k, n + b"s", v))
        ops.append(qop(r, k, n[:1] + n[:-1], v))
        ops.append(qop(r, k, bytes([n[0] ^ 1]) + n[1:], v) if n[0] != 64 and n[0] != 91 else qop(r, k, n, v))
        if len(n) > 2:
            m = bytearray(n)
            i = r.randrange(len(m))
            m[i] = ord("q") if m[i] != ord("q") else ord("z")
            ops.append(qop(r, k, bytes(m), v))
        ops.append(qop(r, k, n.upper() if n.upper() != n else n + b"A", v))
    names = sorted({n for n, _ in STATIC})
    values = sorted({v for _, v in STATIC})
    for n in names:                          # values of other entries
        for v in r.sample(values, 3):
            ops.append(qop(r, r.randrange(5), n, v))
    for n, v in STATIC:                      # strings with the hash of an entry
        ops.append(qop(r, r.randrange(5), n, same_hash(v)))
        ops.append(qop(r, r.randrange(5), same_hash(n), v))
    yield from batch("qe", ops, 40)
    for k in range(90 * big):
        q = "\n".join(qop(r, 0, *(rheader(r) if r.random() < 0.9 else (rname(r, True), rtext(r))))
                      for _ in range(r.randint(1, 9)))
        yield "hlist-%d" % k, q
    long = []
    for n in (100, 126, 127, 128, 129, 200, 254, 255, 256, 300, 1000, 5000):
        long.append(qop(r, 0, rbytes(r, r.choice([1, n]), COMMON), rbytes(r, n, COMMON)))
        long.append(qop(r, 0, b":path", rbytes(r, n)))
        up = bytearray(rbytes(r, n, b"abcdefghij-0"))
        up[r.choice([-1, r.randrange(n)])] = r.randint(65, 90)
        long.append(qop(r, 0, bytes(up), rtext(r)))
    yield from batch("qlong", long, 6)
    for k, (n, v) in enumerate(((b"n", b"~" * 65600), (b"~" * 65536, b"v"), (b":path", b"a" * 104900))):
        yield "qhuge-%d" % k, "\n".join([qop(r, 0, n, v), qop(r, 0, b"x", b"y"), qop(r, 0, *STATIC[5])])
    # what the code encodes, its decoder must read back
    for k in range(60 * big):
        yield "hback-%d" % k, header_feed(r, None, [rheader(r) for _ in range(r.randint(1, 6))])


def enc_line(r, n, v):
    opts = ["lit"]
    for i, (sn, sv) in enumerate(STATIC):
        if sn == n:
            opts.append(("name", i))
            if sv == v:
                opts += [i, i]
    return line(n, v, r.choice(opts), r.choice([None, None, True, False]))


def block(r, n, prefix=b"\0\0"):
    return prefix + b"".join(enc_line(r, *rheader(r)) for _ in range(n))


def block_of(r, hs):
    return b"\0\0" + b"".join(enc_line(r, n, v) for n, v in hs)


def header_feed(r, b, hs=None):
    """Feeds a header block to a decoder in pieces."""
    if b is None:
        b = block_of(r, hs)
    ops, k, c = [], 0, r.randint(0, 2)
    while k < len(b):
        n = r.choice([1, 1, 2, 3, 5, 10, 20, 21, 40])
        ops.append("qd 0 %d %s" % (c, hx(b[k:k + n])))
        k += n
        while r.random() < 0.4:
            ops.append("qd 0 %d -" % c)
    ops += ["qd 0 %d -" % c] * 8
    return "\n".join(ops)


def header_blocks(r, big):
    ops = []
    Q = lambda b: ops.append("qdb " + hx(b))
    for i in range(99):
        Q(b"\0\0" + pint(i, 6, 0xc0))
        Q(b"\0\0" + pint(i, 4, 0x50) + literal(rtext(r, 8), 7))
        Q(b"\0\0" + pint(i, 4, 0x70) + literal(rtext(r, 8), 7))
    for i in list(range(99, 140)) + [255, 256, 256 + 1, 256 + 98, 1 << 16, (1 << 32) + 1, (1 << 32), MAX62,
                                    1 << 63, MAX64, (1 << 64) + 1, 16384 + 5, 65536 + 17, (1 << 16) + 1]:
        Q(b"\0\0" + pint(i, 6, 0xc0) + b"\xd1")
        Q(b"\0\0" + pint(i, 4, 0x50) + literal(b"x", 7) + b"\xd1")
    for first in range(256):                 # every first byte
        Q(b"\0\0" + bytes([first]) + rbytes(r, r.choice([0, 3, 12])))
        Q(b"\0\0" + bytes([first]) + literal(rtext(r, 5), 7) + literal(rtext(r, 5), 7))
    for _ in range(60 * big):
        Q(mutate(r, block(r, r.randint(1, 3))))
        Q(block(r, r.randint(0, 6)))
        b = block(r, r.randint(1, 3))
        Q(b[:r.randint(0, len(b))])
        Q(block(r, 1) + literal(rname(r, True), 3, 0x20, r.choice([None, True, False])) + literal(rtext(r), 7) + b"\xd1")
        # one uppercase letter in something long
        up = bytearray(rbytes(r, r.choice([60, 127, 128, 256, 400, 1100]), b"abcdefghij-0"))
        up[r.choice([0, -1, r.randrange(len(up))])] = r.randint(65, 90)
        Q(block(r, 1) + literal(bytes(up), 3, 0x20, r.choice([None, False])) + literal(rtext(r), 7) + b"\xd1")
        Q(block(r, 1) + literal(b"Upper", 3, 0x20, r.choice([None, True, False]))
          + literal(rbytes(r, r.choice([130, 300, 600, 1100]), COMMON), 7) + b"\xd1")
        bad = frombits(bitsof(rtext(r, 4)) + EOS)
        Q(block(r, 1) + pint(len(bad), 3, 0x28) + bad + b"\x01x")
        Q(block(r, 1) + b"\x51" + pint(len(bad), 7, 0x80) + bad + b"\x01x")
        Q(block(r, r.randint(1, 2), rbytes(r, 2)))
    yield from batch("qdb", ops, 20)
    for k, (n, v) in enumerate(((b"n", b"~" * 65600), (b"~" * 65536, b"v"), (b":path", b"a" * 104900))):
        b = block_of(r, [(n, v), (b"x", b"y"), STATIC[5]])
        yield "qdhuge-%d" % k, "qdb %s\nqd 0 0 %s\nqd 0 0 %s\nqd 0 0 -\nqd 0 0 -" % (
            hx(b), hx(b[:30000]), hx(b[30000:]))
    for k in range(70 * big):
        b = block(r, r.randint(1, 5))
        if r.random() < 0.3:
            b = mutate(r, b)
        yield "feed-%d" % k, header_feed(r, b)


# ---------------------------------------------------------------- C10, C11

SIZES = [0, 1, 2, 5, 10, 18, 19, 20, 21, 22, 23, 39, 40, 41, 42, 60, 100]


def buffers(r, big):
    for k in range(130 * big):
        ops, live = [], {}
        for _ in range(r.randint(4, 45)):
            d = r.randint(0, 5)
            n = r.choice(SIZES)
            x = r.random()
            if not live or x < 0.15:
                how = r.choice(["new", "new", "view", "fill", "chars", "assign"])
                ops.append("b %s %d %s" % (how, d, hx(rbytes(r, n))))
                live[d] = n
                continue
            s = r.choice(list(live))
            if x < 0.17:
                ops.append("b default %d" % d)
                live[d] = 0
            elif x < 0.42:
                m = r.choice([0, 1, live[s], max(0, live[s] - 1), live[s] // 2, min(live[s], 20), min(live[s], 21), r.randint(0, live[s])])
                m = min(m, live[s])
                ops.append("b %s %d %d %d" % (r.choice(["slice", "slice", "slicea"]), d, s, m))
                left = live[s] - m
                live[s] = left
                live[d] = m
            elif x < 0.52:
                m = min(live[s], r.choice([0, 1, live[s], r.randint(0, live[s])]))
                ops.append("b consume %d %d" % (s, m))
                live[s] -= m
            elif x < 0.64:
                ops.append("b %s %d %d" % (r.choice(["move", "movec"]), d, s))
                if d != s:
                    live[d] = live.pop(s)
            elif x < 0.72:
                ops.append("b drop %d" % s)
                live.pop(s)
            elif x < 0.80:
                t = r.choice(list(live))
                if t != s:
                    ops.append("b concat %d %d %d" % (d, s, t))
                    live[d] = live[s] + live[t]
            elif x < 0.92:
                if live[s]:
                    ops.append("b write %d %d %d" % (s, r.choice([0, live[s] - 1, r.randrange(live[s])]), r.getrandbits(8)))
            elif x < 0.96:
                ops.append("b eq %d %d" % (s, r.choice(list(live))))
            else:
                ops.append("b look %d %d %d %d" % (s, r.randint(0, live[s]), r.randint(0, live[s]), r.randint(0, live[s])))
        yield "buf-%d" % k, "\n".join(ops)
    for k in range(4):                      # sizes of more than 16 bits
        n, m = r.choice([65535, 65536, 65537, 70000]), r.choice([65535, 65536, 65537, 66000])
        ops = ["b %s 0 @%d,%d,%d" % (r.choice(["new", "fill"]), n, r.randrange(256), r.choice([1, 3, 7])),
               "b new 1 @%d,%d,3" % (m, r.randrange(256)), "b concat 2 0 1"]
        ops += r.sample(["b %s 3 2 %d" % (r.choice(["slice", "slicea"]), min(n, 65536)), "b consume 2 65535",
                         "b slice 4 2 0", "b write 1 %d 5" % (m - 1), "b eq 0 1", "b consume 0 %d" % n], 4)
        yield "bhuge-%d" % k, "\n".join(ops)
    # more parts of one allocation than 8 bits count, dropped in another order
    n = 300
    ops = ["b new 1000 @%d,1,7" % (21 * (n + 1))] + ["b slice %d 1000 21" % k for k in range(n)]
    order = list(range(n)) + [1000]
    r.shuffle(order)
    yield "bparts", "\n".join(ops + ["b drop %d" % k for k in order])
    # equality of nearly equal contents
    ops = []
    for n in SIZES:
        b = rbytes(r, n)
        ops += ["b new 0 " + hx(b), "b view 1 " + hx(b), "b eq 0 1"]
        for i in {0, n // 2, n - 1} if n else ():
            c = bytearray(b)
            c[i] ^= 1
            ops += ["b new 2 " + hx(bytes(c)), "b eq 0 2"]
        ops += ["b new 2 " + hx(b + b"\0"), "b eq 0 2", "b eq 2 1", "b new 3 " + hx(b[:-1]), "b eq 3 0"]
    yield from batch("beq", ops, 12 * 8)


def buffer_chains(r, big):
    for k in range(4):
        n, m = r.choice([65535, 65536, 70000]), r.choice([65536, 66000])
        ops = ["s push 0 " + hx(rbytes(r, r.randint(0, 9))), "s push 0 @%d,%d,3" % (n, r.randrange(256)),
               "s push 0 @%d,%d,7" % (m, r.randrange(256)), "s look 0 %d %d %d" % (n, m, n + 5)]
        ops += r.sample(["s slice 0 %d" % (n + 5), "s consume 0 65536", "s consume 0 70000", "s slicew 0 65537"], 2)
        yield "chuge-%d" % k, "\n".join(ops)
    ops = ["s push 0 %02x" % (k % 256) for k in range(300)]
    yield "cparts", "\n".join(ops + ["s look 0 270 260 299", "s slice 0 258", "s consume 0 7", "s look 0 30 3 4"])
    for k in range(150 * big):
        ops, size = [], {0: 0, 1: 0}
        style = r.randrange(3)
        for _ in range(r.randint(5, 40)):
            c = r.choice([0, 0, 0, 1])
            x = r.random()
            if x < 0.4 or (size[c] == 0 and x < 0.7):
                n = r.choice([0, 0, 1, 2, 3]) if style == 0 else r.choice(SIZES)
                if r.random() < 0.3:
                    off = r.choice([0, 1, 5, 20, 21])
                    ops.append("s pushpart %d %d %s" % (c, off, hx(rbytes(r, n + off))))
                else:
                    ops.append("s push %d %s" % (c, hx(rbytes(r, n))))
                size[c] += n
            elif x < 0.48:
                ops.append("s pop %d" % c)
                size[c] = 1000               # unknown here
            elif x < 0.55:
                ops.append("s %s %d" % (r.choice(["front", "back"]), c))
            elif x < 0.75:
                n = r.choice([0, 1, 2, r.randint(0, 30), r.randint(0, min(size[c], 200))])
                ops.append("s %s %d %d" % (r.choice(["slice", "slicew"]), c, n))
                size[c] = max(0, size[c] - n)
            elif x < 0.88:
                n = r.choice([0, 1, 2, r.randint(0, 30), min(size[c], 500)])
                ops.append("s consume %d %d" % (c, n))
                size[c] = max(0, size[c] - n)
            elif x < 0.9:
                ops.append("s move %d %d" % (c, 1 - c))
                size[1 - c], size[c] = size[c], 0
            else:
                ops.append("s look %d %d %d %d" % (c, r.randint(0, 40), r.randint(0, 40), r.randint(0, 40)))
        yield "chain-%d" % k, "\n".join(ops)


# ---------------------------------------------------------------- receivers

REQ = [(b":method", b"GET"), (b":scheme", b"https"), (b":authority", b"example.org"), (b":path", b"/")]


def rhs(r):
    k = r.randrange(5)
    if k == 0:
        return [rheader(r)]
    if k == 1:
        return REQ[:r.randint(1, 4)]
    hs = [rheader(r) for _ in range(r.randint(1, 5))]
    if k == 2:                          # the same one again, or its name
        n, v = r.choice(hs)
        hs.insert(r.randint(0, len(hs)), (n, r.choice([v, v, b"", v + b"x"])))
    return hs


def unk(r):
    n = r.choice([0, 1, 2, 5, 20, 30])
    p = rbytes(r, n) if r.random() < 0.6 else b"".join(rframe(r, 0.2) for _ in range(2))
    return frame(r.choice(UNKNOWN), p, tn=r.choice([None, None, 8]), ln=r.choice([None, None, 2, 8]))


def data(r, n=None):
    n = r.choice([0, 1, 2, 3, 7, 19, 20, 21, 22, 40, 63, 64, 65, 100]) if n is None else n
    return frame("data", rbytes(r, n), tn=r.choice([None, None, None, 2, 8]), ln=r.choice([None, None, None, 8]))


def headers(r, hs=None):
    return frame("headers", block_of(r, rhs(r) if hs is None else hs),
                 tn=r.choice([None, None, None, 2]), ln=r.choice([None, None, None, 4]))


def message(r, unknown=0.3):
    """A legal message as a list of frames."""
    out = []
    u = lambda: [out.append(unk(r)) for _ in range(r.randint(1, 2)) if r.random() < unknown]
    u()
    out.append(headers(r))
    u()
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        out.append(data(r))
        u()
    if r.random() < 0.25:
        out.append(frame("headers", r.choice([block(r, r.randint(0, 3)), b"", rbytes(r, r.randint(0, 30))])))
        u()
    return out


def anyframe(r, t=None):
    t = t or r.choice(list(TYPES))
    if t == "data":
        return data(r)
    if t == "headers":
        return headers(r)
    f = [min(x, 1 << 30) if k != 4 or t != "priority" else x for k, x in enumerate(fields(r, t))]
    if t == "push_promise":
        b = block(r, 1)
        i = varint(f[0])
        return varint(5) + varint(len(i) + len(b)) + i + b
    return frame_bytes(t, f)


def illegal(r, msg):
    """One departure from a legal message."""
    msg = list(msg)
    k = r.randrange(8)
    at = r.randint(0, len(msg))
    if k <= 2:
        msg.insert(at, anyframe(r))
    elif k == 3:
        msg = [f for f in msg if f[0] != 1] or [data(r)]
    elif k == 4 and msg:
        del msg[r.randrange(len(msg))]
    elif k == 5:
        msg = [mutate(r, b"".join(msg))]
    elif k == 6:
        b = block_of(r, rhs(r))
        m = r.randrange(6)
        if m == 0:
            b = b[:r.randint(0, len(b) - 1)]         # truncated block
        elif m == 1:
            b = b + rbytes(r, r.randint(1, 3))
        elif m == 2:
            b = mutate(r, b)
        elif m == 3:
            b = b + literal(rname(r, True), 3, 0x20) + literal(b"v", 7)
        elif m == 4:
            b = b""
        else:
            b = b[:2]
        msg = [frame("headers", b)] + [f for f in msg if f[0] != 1]
    else:
        msg.append(anyframe(r))
    return msg


def chunks(r, b, style=None):
    """Cuts a stream into chunks."""
    style = r.randrange(6) if style is None else style
    out = []
    if style == 0:
        out = [b]
    elif style == 1:
        out = [b[i:i + 1] for i in range(len(b))]
    elif style == 2:
        k = r.randint(0, len(b))
        out = [b[:k], b[k:]]
    else:
        k = 0
        m = max(r.choice([2, 4, 10, 25, 60]), len(b) // 60)
        while k < len(b):
            n = r.randint(0, m)
            out.append(b[k:k + n])
            k += n
    if not out:
        out = [b""]
    if r.random() < 0.2:
        out.insert(r.randint(0, len(out)), b"")
    return out


def bytewise_limit(b, n=160):
    return len(b) <= n


def polls(r, g, ng=None):
    """Asks the generator g (usually until nothing is left)."""
    x = r.random()
    if x < 0.75:
        out = ["drain %d" % g]
    elif x < 0.85:
        out = []
    else:
        out = ["next %d" % g] * r.randint(1, 3)
    return out


def feed(r, k, sid, b, fin, g=1, style=None, other=None):
    """recv ops for a whole stream."""
    if style is None:
        style = r.randrange(6)
    if style == 1 and not bytewise_limit(b):
        style = 3
    cs = chunks(r, b, style)
    late = fin and r.random() < 0.4
    if late:
        cs.append(b"")
    ops = []
    for i, c in enumerate(cs):
        gg = g + (r.randint(0, 2) if r.random() < 0.1 else 0)
        ops.append("recv %d %d %d %d %s" % (k, gg, sid, 1 if fin and i == len(cs) - 1 else 0, hx(c)))
        ops += polls(r, gg)
        if other and r.random() < 0.3:
            ops += other()
    ops += ["drain %d" % g, "drain %d" % g, "next %d" % g, "next %d" % g]
    return ops


def control_bytes(r, legal=True):
    s = varint(0, r.choice([None, None, 2, 8]))
    pairs = [(i, rint(r)) for i in (1, 6, 7, 9) if r.random() < 0.5]
    pairs += [(r.choice([2, 11, 300, MAX62]), rint(r)) for _ in range(r.choice([0, 0, 1]))]
    r.shuffle(pairs)
    if r.random() < 0.15:
        pairs = manysettings(r, r.choice([3, 8, 30, 70]))
    out = [s]
    if r.random() < 0.3:
        out.append(unk(r))
    out.append(frame("settings", settings(pairs)))
    for _ in range(r.choice([0, 0, 1, 2])):
        out.append(unk(r))
    return out


def setup_client(r, k=1, n=1, start=True):
    """A client with n requests (handles 100..) that were started."""
    ops = ["client %d" % k]
    for i in range(n):
        ops.append("request %d %d" % (k, 100 + i))
        ops.append("h header %d %s %s" % (100 + i, hx(b":method"), hx(b"GET")))
        if start:
            ops.append("h start %d" % (100 + i))
            if r.random() < 0.7:
                ops.append("h fin %d" % (100 + i))
    ops.append("flush %d" % k)
    return ops


def receiver(r, n, make, fin=None, name="recv"):
    """Streams given by make() -> list of frames, to both roles."""
    for k in range(n):
        role = r.choice(["client", "server"])
        sid = 0
        if role == "client":
            ops = setup_client(r)
        else:
            ops = ["server 1"]
            sid = r.choice([0, 0, 4, 8, 64, 1 << 8, 1 << 20, 1 << 32, MAX62 - 3])
        b = b"".join(make())
        f = (r.random() < 0.75) if fin is None else fin
        ops += feed(r, 1, sid, b, f)
        if r.random() < 0.3:
            ops.append("recv 1 1 %d %d %s" % (sid, r.randint(0, 1), hx(rbytes(r, r.choice([0, 1, 5])))))
            ops.append("drain 1")
        yield "%s-%s-%d" % (name, role, k), "\n".join(ops)


def every_cut(r, n, name="cut"):
    """One stream per trace, delivered in two chunks at every position."""
    for k in range(n):
        role = r.choice(["client", "server"])
        msg = b"".join(message(r, 0.2))
        while len(msg) > 70:
            msg = b"".join(message(r, 0.1))
        if r.random() < 0.2:
            msg = mutate(r, msg)
        for c in range(len(msg) + 1):
            ops = setup_client(r) if role == "client" else ["server 1"]
            how = r.randrange(3)
            ops.append("recv 1 1 0 0 " + hx(msg[:c]))
            if r.random() < 0.8:
                ops.append("drain 1")
            ops.append("recv 1 1 0 %d %s" % (how == 0, hx(msg[c:])))
            ops.append("drain 1")
            if how == 1:
                ops += ["recv 1 1 0 1 -", "drain 1"]
            ops += ["drain 1", "next 1"]
            yield "%s-%d-%d" % (name, k, c), "\n".join(ops)


def truncated(r, n, name="trunc"):
    """Streams that end at every position."""
    for k in range(n):
        role = r.choice(["client", "server"])
        msg = b"".join(message(r, 0.2))
        while len(msg) > 70:
            msg = b"".join(message(r, 0.1))
        for c in range(len(msg) + 1):
            ops = setup_client(r) if role == "client" else ["server 1"]
            if r.random() < 0.5:
                ops += ["recv 1 1 0 1 " + hx(msg[:c])]
            else:
                ops += ["recv 1 1 0 0 " + hx(msg[:c]), "drain 1", "recv 1 1 0 1 -"]
            ops += ["drain 1", "drain 1", "next 1"]
            yield "%s-%d-%d" % (name, k, c), "\n".join(ops)


def controls(r, n, make, name="ctl"):
    for k in range(n):
        role = r.choice(["client", "server"])
        ops = ["%s 1" % role]
        sid = 3 if role == "client" else 2
        b = b"".join(make())
        ops += feed(r, 1, sid, b, r.random() < 0.1)
        if r.random() < 0.15:
            ops += ["recv 1 2 %d 1 %s" % (sid, hx(rbytes(r, r.choice([0, 2])))), "drain 2", "drain 1",
                    "recv 1 2 %d 0 %s" % (sid, hx(unk(r))), "drain 2"]
        yield "%s-%s-%d" % (name, role, k), "\n".join(ops)


def bad_control(r):
    c = control_bytes(r)
    k = r.randrange(9)
    if k == 0:
        c[0] = varint(r.choice([1, 2, 3, 0x21, 63, 64, 256, 1 << 32, MAX62]), r.choice([None, 8]))
    elif k == 1:
        c.insert(1, anyframe(r))
    elif k <= 3:
        c.append(anyframe(r))
    elif k == 4:
        c.append(frame("settings", settings([(6, 5)])))
    elif k == 5:
        c = [c[0], mutate(r, b"".join(c[1:]))]
    elif k == 6:
        c = [mutate(r, b"".join(c))]
    elif k == 7:
        c = [c[0]] + [f for f in c[1:] if f[0] != 4] + [anyframe(r)]
    else:
        c += [anyframe(r), anyframe(r)]
    if r.random() < 0.5:
        c.append(r.choice([unk(r), anyframe(r)]))
    return c


def control_matrix(r):
    """Every frame type first and after SETTINGS, whole and bytewise, per role."""
    for role, sid in (("client", 3), ("server", 2)):
        for t in TYPES:
            for st in (0, 1):
                for style in (0, 1):
                    s = [b"\0"] + ([frame("settings", settings([(6, 100)]))] if st else [])
                    f = anyframe(r, t) if t != "settings" else frame("settings", settings([(7, 3)]))
                    ops = ["%s 1" % role] + feed(r, 1, sid, b"".join(s) + f + unk(r) + frame_bytes("goaway", [1]), False, style=style)
                    yield "cm-%s-%s-%d-%d" % (role, t, st, style), "\n".join(ops)


def request_matrix(r):
    """Every frame type in every position of a message, per role."""
    for role in ("client", "server"):
        for t in list(TYPES) + ["unknown"]:
            for st in range(5):
                for style in (0, 1, 2):
                    f = unk(r) if t == "unknown" else anyframe(r, t)
                    h, d = headers(r, REQ[:2]), data(r, 5)
                    tr = frame("headers", block_of(r, REQ[2:3]))
                    s = [[f], [h, f], [h, d, f], [h, d, tr, f], [h, tr, f]][st]
                    tail = r.choice([[], [data(r, 3)], [headers(r, REQ[:1]), data(r, 3)]])
                    ops = setup_client(r) if role == "client" else ["server 1"]
                    ops += feed(r, 1, 0, b"".join(s + tail), r.random() < 0.8, style=style)
                    yield "rm-%s-%s-%d-%d" % (role, t, st, style), "\n".join(ops)


WIDE = [1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 48, 1 << 61]


def overlong(r):
    """A message in which a length is far larger than what arrives: a little more
    than a multiple of 2^8, 2^16, 2^32, .. (and so small when it is truncated)."""
    n = r.randint(0, 6)
    size = min(MAX62, r.choice(WIDE) * r.choice([1, 1, 2, 3]) + n)
    k = r.randrange(6)
    h, tail = headers(r, REQ[:2]), data(r, 3) + unk(r)
    if k == 0:
        return [h, frame("data", rbytes(r, n) + tail, length=size)]
    if k == 1:
        b = block_of(r, REQ[:2])
        return [frame("headers", b + tail, length=size - n + len(b))]
    if k == 2:
        return [h, frame(r.choice(UNKNOWN), rbytes(r, n) + tail, length=size)]
    if k == 3:
        return [h, frame("headers", rbytes(r, n) + tail, length=size)]
    # a string literal inside a complete HEADERS frame
    name, value = (literal(b"abc", 3, 0x20), pint(size, 7, r.choice([0, 128])) + rbytes(r, n)) if k == 4 else \
        (pint(size, 3, r.choice([0x20, 0x28])) + b"abcdef"[:n], literal(b"v", 7))
    return [frame("headers", block_of(r, REQ[:1]) + name + value + b"\xd1" * r.randint(0, 3)), tail]


def bigbody(r, n):
    for k in range(n):
        role = r.choice(["client", "server"])
        ops = setup_client(r) if role == "client" else ["server 1"]
        m = r.choice([16383, 16384, 20000, 70000])
        ops.append("recv 1 1 0 0 " + hx(headers(r, REQ[:1]) + varint(0) + varint(m)))
        left, i = m, 0
        while left:
            c = min(left, r.choice([1, 100, 1200, 5000, 20000]))
            ops.append("recv 1 1 0 %d @%d,%d,7" % (left == c and r.random() < .5, c, i))
            ops.append("drain 1")
            left -= c
            i += 1
        ops += ["recv 1 1 0 1 -", "drain 1", "next 1"]
        yield "bigbody-%d" % k, "\n".join(ops)
    for k in range(2):                      # a header block of more than 65535 bytes
        role = r.choice(["client", "server"])
        ops = setup_client(r) if role == "client" else ["server 1"]
        b = headers(r, REQ[:1] + [(b"n", b"~" * r.choice([65530, 66000]))] + REQ[:1]) + data(r, 5)
        while b:
            c = r.choice([100, 1200, 20000, 65536])
            ops += ["recv 1 1 0 0 " + hx(b[:c]), "drain 1"]
            b = b[c:]
        ops += ["recv 1 1 0 1 -", "drain 1", "next 1"]
        yield "bigheaders-%d" % k, "\n".join(ops)


def r12(r, big):
    yield from receiver(r, 40 * big, lambda: overlong(r), name="over")
    yield from receiver(r, 260 * big, lambda: message(r, 0.3), name="msg")
    yield from every_cut(r, 4 * big)
    yield from receiver(r, 60 * big, lambda: illegal(r, message(r)), name="ill")
    yield from controls(r, 70 * big, lambda: control_bytes(r))
    yield from controls(r, 30 * big, lambda: bad_control(r), "bctl")
    yield from bigbody(r, 2 * big)


def r13(r, big):
    yield from receiver(r, 30 * big, lambda: overlong(r), name="over")
    yield from truncated(r, 6 * big)
    yield from every_cut(r, 3 * big)
    yield from receiver(r, 220 * big, lambda: message(r, 0.5), True, "fin")
    yield from receiver(r, 60 * big, lambda: message(r, 0.4), False, "nofin")
    yield from receiver(r, 50 * big, lambda: illegal(r, message(r)), True, "illfin")
    # FIN alone, FIN before anything, FIN twice, data after FIN
    k = 0
    for pre in ([], ["h"], ["h", "d"], ["h", "d", "u"], ["h", "u"], ["h", "e"], ["h", "d", "e"], ["h", "e", "u"],
                ["h", "t"], ["h", "d", "t"], ["h", "d", "t", "u"], ["u"], ["h", "d", "d"], ["h", "e", "e"]):
        for when in range(3):
            for role in ("client", "server"):
                m = {"h": headers(r, REQ[:2]), "d": data(r, 4), "u": unk(r), "e": data(r, 0),
                     "t": frame("headers", block_of(r, REQ[:1]))}
                b = b"".join(m[x] for x in pre)
                ops = setup_client(r) if role == "client" else ["server 1"]
                if when == 0:
                    ops += ["recv 1 1 0 1 " + hx(b)]
                elif when == 1:
                    ops += ["recv 1 1 0 0 " + hx(b), "drain 1", "recv 1 1 0 1 -"]
                else:
                    ops += ["recv 1 1 0 0 " + hx(b), "recv 1 1 0 0 -", "drain 1", "recv 1 2 0 1 -", "drain 2"]
                ops += ["drain 1", "drain 1", "next 1", "recv 1 3 0 %d %s" % (r.randint(0, 1), r.choice(["-", "00"])),
                        "drain 3", "drain 1", "next 1"]
                yield "finpos-%d" % k, "\n".join(ops)
                k += 1


def r14(r, big):
    yield from receiver(r, 40 * big, lambda: overlong(r), name="over")
    yield from request_matrix(r)
    yield from receiver(r, 300 * big, lambda: illegal(r, message(r, 0.2)), name="ill")
    yield from receiver(r, 60 * big, lambda: [anyframe(r) if r.random() < .7 else unk(r) for _ in range(r.randint(1, 5))], name="any")
    yield from receiver(r, 60 * big, lambda: message(r, 0.4), name="msg")


def r15(r, big):
    yield from control_matrix(r)
    yield from controls(r, 150 * big, lambda: control_bytes(r))
    yield from controls(r, 250 * big, lambda: bad_control(r), "bctl")


def noise(r):
    k = r.randrange(7)
    if k == 0:
        return rbytes(r, r.randint(0, 60))
    if k == 1:
        return mutate(r, b"".join(message(r)))
    if k == 2:
        return b"".join(rframe(r, 0.3) for _ in range(r.randint(1, 4)))
    if k == 3:
        return mutate(r, b"".join(control_bytes(r)))
    if k == 4:
        return rbytes(r, r.randint(1, 40), [0, 1, 2, 3, 4, 5, 7, 13, 14, 0x40, 0x80, 0xc0, 0xff, 0x21])
    if k == 5:
        return headers(r) + mutate(r, data(r))
    return frame("headers", b"\0\0" + rbytes(r, r.randint(0, 30)))


def robust(r, big):
    """Arbitrary input on arbitrary streams."""
    yield from receiver(r, 60 * big, lambda: overlong(r), name="over")
    for k in range(330 * big):
        role = r.choice(["client", "server"])
        ops = setup_client(r, n=r.randint(0, 3), start=r.random() < 0.8) if role == "client" else ["server 1"]
        for _ in range(r.randint(1, 8)):
            sid = r.choice([0, 0, 4, 8, 2, 3, 1, 5, 6, 7, 10, 11, 12, 4 + (1 << 32), 1 << 32, 1 << 16, 256, 258, 259, 2 + (1 << 32), 3 + (1 << 32), 1 << 40, MAX62, MAX62 - 3])
            g = r.randint(1, 3)
            b = noise(r)
            if r.random() < 0.5:
                ops.append("recv 1 %d %d %d %s" % (g, sid, r.random() < 0.2, hx(b)))
                ops += polls(r, r.randint(1, 3)) + ["drain %d" % g]
            else:
                ops += feed(r, 1, sid, b, r.random() < 0.4, g)
            if role == "server" and r.random() < 0.3:
                ops.append("response 1 %d 7" % sid)
            if r.random() < 0.1:
                ops.append("flush 1")
        for g in (1, 2, 3):
            ops += ["drain %d" % g, "drain %d" % g, "next %d" % g]
        yield "noise-%d" % k, "\n".join(ops)
    yield from receiver(r, 60 * big, lambda: [noise(r), noise(r)], name="pair")
    yield from controls(r, 40 * big, lambda: [b"\0", noise(r)], "cnoise")
