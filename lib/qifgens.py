"""Scripts for the QPACK interop tools (C22)."""
from gens import *


def clean(n, v):
    n = bytes(c for c in n if c not in (9, 10))
    v = bytes(c for c in v if c != 10)
    return (n[1:] if n[:1] == b"#" else n), v


def qheader(r):
    n, v = clean(*rheader(r))
    if r.random() < 0.15:
        k = r.randint(0, len(v))
        v = v[:k] + r.choice([b"\t", b"#", b"\r", b"\0", b"\t\t", b" "]) + v[k:]
    if n[:1] == b"#":
        n = n.lstrip(b"#")
    return n, v


def comment(r):
    return b"#" + bytes(c for c in rbytes(r, r.choice([0, 0, 1, 5, 20]), list(COMMON) + [9, 35]) if c != 10) + b"\n"


def qtext(r, lists):
    """A text with these lists; comments and empty lines anywhere."""
    noisy = r.random() < 0.6
    out = b""

    def noise(blank):
        nonlocal out
        while noisy and r.random() < 0.3:
            out += comment(r) if r.random() < 0.6 or not blank else b"\n"
    noise(True)
    for k, hs in enumerate(lists):
        for n, v in hs:
            out += n + b"\t" + v + b"\n"
            noise(False)
        last = k == len(lists) - 1
        if not last or r.random() < 0.6:
            out += b"\n"
            noise(True)
    if out.endswith(b"\n") and r.random() < 0.2:
        out = out[:-1]
    return out


def qlists(r, n=None):
    n = r.choice([0, 1, 1, 2, 3, 5]) if n is None else n
    return [[qheader(r) for _ in range(r.choice([1, 1, 2, 3, 6]))] for _ in range(n)]


def qbinary(r, lists, ids=None):
    out = b""
    for k, hs in enumerate(lists):
        b = block_of(r, hs)
        out += (k + 1 if ids is None else ids[k]).to_bytes(8, "big") + len(b).to_bytes(4, "big") + b
    return out


def qif_texts(r, big):
    ops = ["enc -", "enc 0a", "enc 0a0a", "enc 23", "enc 230a", "enc 09", "enc 090a", "enc 0909",
           "enc " + hx(b"a"), "enc " + hx(b"a\tb"), "enc " + hx(b"a\t"), "enc " + hx(b"A\tb"),
           "enc " + hx(b"a\tb\n\nC\td\n"), "enc " + hx(b"a\tb\n\nc"), "enc " + hx(b"a\tb\n \n"),
           "enc " + hx(b"a\tb\r\n\r\n"), "enc " + hx(b"a\tb\n#c\td\ne\tf\n"),
           "enc " + hx(b"a\tb\n\n#\n\n#x\n\nc\td"), "enc " + hx(b" #\tb\n"), "enc " + hx(b"a#\tb#\n"),
           "enc " + hx(b"a\tb\tc\td\n"), "enc " + hx(b"\t\n\t\n\n\t\n")]
    for _ in range(30 * big):
        ops.append("enc " + hx(qtext(r, qlists(r))))
    for _ in range(8 * big):                  # damaged
        ops.append("enc " + hx(mutate(r, qtext(r, qlists(r, 2)))))
    for _ in range(4 * big):                  # a name that is not lowercase somewhere
        ls = qlists(r, r.randint(1, 3))
        hs = r.choice(ls)
        k = r.randrange(len(hs))
        hs[k] = clean(rname(r, True), hs[k][1])
        ops.append("enc " + hx(qtext(r, ls)))
    for n in (127, 128, 255, 256, 257, 300):  # sizes and numbers beyond a byte
        ops.append("enc " + hx(b"x-a\t" + bytes([r.choice(b"|{}")]) * n + b"\n\n"))
    ops.append("enc " + hx(b"".join(b"%s\t%s\n\n" % qheader(r) for _ in range(300))))
    for n in (15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, r.randint(18, 400)):
        ls = [[(b"n%d" % r.randrange(1000), bytes([r.choice(b"abc012")])) for _ in range(n)],
              [qheader(r)], [qheader(r), (b"b", b"c")]]
        r.shuffle(ls)
        ops.append("enc " + hx(qtext(r, ls)))
    for n in (62, 63, 64, 65, 127, 128, 129, 200, 1000, 4000):
        ls = [[(b"x" * n, b"y"), (b"a", b"z" * n)], [(b"x" * n, bytes(range(11, 11 + 100)))]]
        ops.append("enc " + hx(qtext(r, ls)))
    for op in ops:
        yield op
        yield "dec @"


def qif_binaries(r, big):
    for _ in range(25 * big):
        yield "dec " + hx(qbinary(r, qlists(r)))
    for _ in range(15 * big):
        yield "dec " + hx(mutate(r, qbinary(r, qlists(r, r.choice([1, 2, 2])))))
    for _ in range(6 * big):                  # cut off
        b = qbinary(r, qlists(r, 2))
        yield "dec " + hx(b[:r.randint(0, len(b))])
    for _ in range(12 * big):                 # wrong sizes
        ls = qlists(r, r.choice([2, 3]))
        bs = [block_of(r, hs) for hs in ls]
        k = r.randrange(len(bs))
        out = b""
        for j, b in enumerate(bs):
            n = len(b)
            if j == k:
                n = r.choice([0, 1, 2, n - 1, n + 1, n + 2, n + 12, n + 12 + len(bs[(j + 1) % len(bs)]),
                              n + 256, n + 65536, n + (1 << 24), (1 << 32) - 1, 1 << 31, r.randint(0, n)])
            out += (j + 1).to_bytes(8, "big") + n.to_bytes(4, "big") + b
        yield "dec " + hx(out)
    for _ in range(3 * big):                  # empty header blocks, other numbers
        ls = qlists(r, 3)
        if r.random() < 0.5:
            ls[r.randrange(3)] = []
        yield "dec " + hx(qbinary(r, ls, r.choice([None, [2, 1, 3], [1, 1, 1], [5, 1 << 32, 1 << 63],
                                                   [0, 1, 2]])))
    for n in (255, 256, 300):
        yield "dec " + hx(qbinary(r, [[(b"a", b"")]] * n))
    for n in (65535, 65536, 70000):
        yield "dec " + hx(qbinary(r, [[(b"x-a", b"|" * n), (b"b", b"c")], [(b"d", b"")]]))


def qif_environment(r, big):
    good = hx(b"a\tb\n\nc\td\n\n")
    long_ = hx(b"a\t" + b"|" * 20000 + b"\n\n")
    bgood = hx(qbinary(r, [[(b"a", b"b")], [(b"c", b"d")]]))
    blong = hx(qbinary(r, [[(b"a", b"|" * 20000)]]))
    for tool, xs in (("enc", (good, long_, "-", hx(b"x"))), ("dec", (bgood, blong, "-", "00"))):
        for x in xs:
            for src in ("file", "missing", "dir"):
                for dst in ("file", "missing", "dir", "full", "none", "one"):
                    yield "env %s %s %s %s" % (tool, src, dst, x)
        yield "env %s file file %s" % (tool, xs[0])


def qif_sizes(r, big):
    for n in (16383, 65000, 65535, 65536, 65600, (1 << 24) - 1, 1 << 24, (1 << 24) + r.randint(1, 1 << 20)):
        yield "long %s %d %d" % (hx(r.choice([b"x-long", b"cookie", b":path"])), r.choice(b"|{}"), n)
    for n in (1, 255, 256, 257, 65537, 66000):
        yield "bulk %d %s" % (n, hx(b"%s\t%s\n\n" % (r.choice([b"a", b"date"]), r.choice([b"b", b"|", b""]))))


def qif(r, big):
    yield from batch("text", qif_texts(r, big), 24)
    yield from batch("bin", qif_binaries(r, big), 12)
    yield from batch("env", qif_environment(r, big), 16)
    yield from batch("size", qif_sizes(r, big), 2)
