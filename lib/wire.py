"""Encoders used to craft inputs. They decide nothing: TLC judges every event
against the specification."""
import os, re

_t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       "spec", "Tables.tla")).read()
_h = _t[_t.index("HuffmanTable =="):_t.index("StaticTable ==")]
HUFF = [(int(a), int(b)) for a, b in re.findall(r"<<(\d+), (\d+)>>", _h)]
_s = _t[_t.index("StaticTable =="):]


def _bytes(x):
    return bytes(int(v) for v in x.split(",") if v.strip())


STATIC = [(_bytes(a), _bytes(b))
          for a, b in re.findall(r"<<<<([\d, ]*)>>, <<([\d, ]*)>>>>", _s)]
assert len(HUFF) == 256 and len(STATIC) == 99, (len(HUFF), len(STATIC))

TYPES = {"data": 0, "headers": 1, "priority": 2, "cancel_push": 3, "settings": 4,
         "push_promise": 5, "goaway": 7, "max_push_id": 13, "duplicate_push": 14}
KNOWN = set(TYPES.values())
UNKNOWN = [0x21, 6, 8, 9, 10, 11, 12, 15, 16, 0x3f, 0x40, 0x21 + 0x1f * 3, 0xff,
           0x2000, 0x12345, (1 << 62) - 1, 256, 257, 260, 1 << 32, (1 << 32) + 1, (1 << 16)]


def varint(v, n=None):
    if n is None:
        n = 1 if v < 64 else 2 if v < 16384 else 4 if v < 1 << 30 else 8
    tag = {1: 0, 2: 0x40, 4: 0x80, 8: 0xc0}[n]
    b = bytearray((v & ((1 << (8 * n)) - 1)).to_bytes(n, "big"))
    b[0] = (b[0] & 0x3f) | tag
    return bytes(b)


def pint(v, p, high=0):
    m = (1 << p) - 1
    if v < m:
        return bytes([high + v])
    out, v = [high + m], v - m
    while v >= 128:
        out.append(v % 128 + 128)
        v //= 128
    return bytes(out + [v])


def huff(s):
    bits = "".join(format(HUFF[c][0], "0%db" % HUFF[c][1]) for c in s)
    bits += "1" * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def literal(s, p, high=0, h=None):
    e = huff(s)
    if h is None:
        h = len(e) < len(s)
    return pint(len(e), p, high + (1 << p)) + e if h else pint(len(s), p, high) + s


def line(n, v, how, h=None):
    """how: an index, ('name', index), or 'lit'"""
    if isinstance(how, int):
        return pint(how, 6, 0xc0)
    if how == "lit":
        return literal(n, 3, 0x20, h) + literal(v, 7, 0, h)
    return pint(how[1], 4, 0x50) + literal(v, 7, 0, h)


def frame(t, payload, tn=None, ln=None, length=None):
    return (varint(TYPES.get(t, t) if isinstance(t, str) else t, tn)
            + varint(len(payload) if length is None else length, ln) + payload)


def settings(pairs):
    return b"".join(varint(a) + varint(b) for a, b in pairs)


def hx(b):
    return b.hex() if b else "-"


# --------------------------------------------------------------------------
# XXH64 (seed 0), and the only eight bytes with a given hash: strings that a
# lookup by hash alone takes for others.

M64 = (1 << 64) - 1
XP = (0x9E3779B185EBCA87, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x85EBCA77C2B2AE63,
      0x27D4EB2F165667C5)


def _rotl(x, n):
    return ((x << n) | (x >> (64 - n))) & M64


def _round(acc, x):
    return _rotl((acc + x * XP[1]) & M64, 31) * XP[0] & M64


def xxh64(b):
    n, i = len(b), 0
    if n >= 32:
        v = [(XP[0] + XP[1]) & M64, XP[1], 0, -XP[0] & M64]
        while i + 32 <= n:
            for k in range(4):
                v[k] = _round(v[k], int.from_bytes(b[i + 8 * k:i + 8 * k + 8], "little"))
            i += 32
        h = sum(_rotl(x, k) for x, k in zip(v, (1, 7, 12, 18))) & M64
        for x in v:
            h = ((h ^ _round(0, x)) * XP[0] + XP[3]) & M64
    else:
        h = XP[4]
    h = (h + n) & M64
    while i + 8 <= n:
        h ^= _round(0, int.from_bytes(b[i:i + 8], "little"))
        h = (_rotl(h, 27) * XP[0] + XP[3]) & M64
        i += 8
    if i + 4 <= n:
        h ^= int.from_bytes(b[i:i + 4], "little") * XP[0] & M64
        h = (_rotl(h, 23) * XP[1] + XP[2]) & M64
        i += 4
    for c in b[i:]:
        h = _rotl(h ^ (c * XP[4] & M64), 11) * XP[0] & M64
    for s, p in ((33, XP[1]), (29, XP[2])):
        h = (h ^ (h >> s)) * p & M64
    return h ^ (h >> 32)


def same_hash(s):
    """The eight bytes with the hash of s."""
    inv = lambda a: pow(a, -1, 1 << 64)

    def unshift(h, s):
        r = h
        while h ^ (r >> s) != r:
            r = h ^ (r >> s)
        return r
    h = unshift(xxh64(s), 32) * inv(XP[2]) & M64
    h = unshift(h, 29) * inv(XP[1]) & M64
    h = (unshift(h, 33) - XP[3]) * inv(XP[0]) & M64
    k = (_rotl(h, 64 - 27) ^ ((XP[4] + 8) & M64)) * inv(XP[0]) & M64
    return (_rotl(k, 33) * inv(XP[1]) & M64).to_bytes(8, "little")
