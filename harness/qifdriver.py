#!/usr/bin/env python3
"""Conformance driver for the QPACK interop tools: same protocol as driver.cpp.
Every tool runs in a scratch directory of its own; what it read, its exit status
and what it wrote are recorded. It judges nothing itself.

  enc HEX              the encode tool on a file with these bytes
  dec HEX | dec @      the decode tool, @: on what the last enc wrote
  env TOOL FROM TO HEX a tool whose input (FROM) or output (TO) is special
  long NAME BYTE N     encode and decode one header with a value of N times BYTE
  bulk N HEX           encode and decode a file that is this text N times
"""
import json, os, shutil, signal, subprocess, sys, tempfile

BIN = os.path.join(os.environ["BNL_TOOLS"], "bnl/http3/bin")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:"
           "allocator_may_return_null=1:max_allocation_size_mb=1024")


def tool(name, args, cwd):
    try:
        p = subprocess.run([os.path.join(BIN, "qpack-interop-" + name)] + args, cwd=cwd,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, env=ENV, timeout=60)
    except subprocess.TimeoutExpired:
        return "hang"
    if p.returncode == 99:
        # std::bad_alloc in a build without AddressSanitizer
        if b"allocation-size-too-big" in p.stderr or b"out-of-memory" in p.stderr:
            return "signal"
        sys.stderr.write(p.stderr.decode(errors="replace")[-3000:])
        return "memory"
    if p.returncode < 0:
        return "signal"
    return "ok" if p.returncode == 0 else "fail"


def read(f):
    try:
        with open(f, "rb") as h:
            return h.read()
    except OSError:
        return b""


def write(f, b):
    with open(f, "wb") as h:
        h.write(b)


class Driver:
    def __init__(self):
        self.last = b""

    def run(self, op, args, d):
        i, o, t = (os.path.join(d, x) for x in ("in", "out", "text"))
        if op in ("enc", "dec"):
            b = self.last if args[0] == "@" else bytes.fromhex(args[0].replace("-", ""))
            write(i, b)
            s = tool("encode" if op == "enc" else "decode", [i, o], d)
            out = read(o)
            if op == "enc":
                self.last = out
            return {"o": "qif" + op, "in": list(b), "s": s, "out": list(out)}
        if op == "env":
            b = bytes.fromhex(args[3].replace("-", ""))
            write(i, b)
            src = {"file": i, "missing": i + "x", "dir": d}[args[1]]
            dst = {"file": o, "missing": os.path.join(d, "no", "out"), "dir": d,
                   "full": "/dev/full"}.get(args[2])
            argv = {"none": [], "one": [src]}.get(args[2], [src, dst])
            s = tool({"enc": "encode", "dec": "decode"}[args[0]], argv, d)
            return {"o": "qifenv", "tool": args[0], "from": args[1], "to": args[2],
                    "in": list(b), "s": s}
        if op == "long":
            name, byte, n = bytes.fromhex(args[0]), int(args[1]), int(args[2])
            text = name + b"\t" + bytes([byte]) * n + b"\n\n"
        else:
            n = int(args[0])
            unit = bytes.fromhex(args[1])
            text = unit * n
        write(i, text)
        s = tool("encode", [i, o], d)
        enc = read(o)
        s2 = tool("decode", [o, t], d)
        e = {"o": "qif" + op, "n": n, "s": s, "s2": s2, "len": len(enc),
             "same": read(t) == text}
        if op == "long":
            head = 12 + 2 + 16 + len(name)
            e.update(name=list(name), byte=byte, head=list(enc[:head]),
                     tail=enc[head:] == bytes([byte]) * (len(enc) - head))
        else:
            size = len(enc) // n
            at = sorted({k for k in (0, 1, n // 2, n - 1, 254, 255, 256, 65534, 65535, 65536)
                         if k < n})
            e.update(unit=list(unit), size=size,
                     blocks=[[k + 1, list(enc[k * size:(k + 1) * size])] for k in at])
        return e


def main():
    drv, first, old = Driver(), True, 0
    for line in sys.stdin:
        line = line.rstrip("\n")
        if not line:
            continue
        if line.startswith("T ") or line == "E":
            drv = Driver()
            print(line, flush=True)
            continue
        op, *args = line.split(" ")
        d = tempfile.mkdtemp(prefix="qif.")
        try:
            e = drv.run(op, args, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(e, separators=(",", ":")), flush=True)


main()
