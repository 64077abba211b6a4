#!/usr/bin/env python3
"""Are the bounded models able to fail? Changes the specification, one change at a
time in a scratch copy, and checks that a model no longer holds.

    tools/mutspec.py [NUMBER...]
"""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, models

CODEC = (models.CODEC, ["Steady"])
A = {0, 1, 64, 128, 255}


def codec(what, p=0, n=3, alphabet=A):
    return ("MC_Codec", dict(What=what, P=p, Alphabet=set(alphabet), N=n, Scripts=False)) + CODEC


BUFFERS = ("MC_Buffers", dict(Slots={1, 2}, Sizes={1, 3, 4}, Inline=2, N=4, Scripts=False),
           ["Refines", "Counted", "Safe", "Disjoint"], [])


def chains(what, ops=(), k=0, p=0):
    return ("MC_Chains", dict(What=what, P=p, Use={1, 2, 3}, N=2, Ops=set(ops), K=k, Scripts=False), models.CHAINS, [])


def recv(kind, use, n=2, cut=2):
    return ("MC_Recv", dict(Kind=kind, Use=set(use), N=n, Cut=cut, Scripts=False), models.RECV, ["Finishes"])


def system(**c):
    c = dict(dict(Requests=1, Headers=1, Bodies=1, Partial=False, Whole=False, Settings=False), **c)
    return ("MC_System", dict(c, Scripts=False), models.SYSTEM, ["Arrives"] if c["Whole"] else [])


def quic(adds=2, losses=0, streams=1):
    return ("MC_Quic", dict(models.quic_(streams, adds, 2, losses), Scripts=False), models.QUIC, ["Arrives"])


def keys(suites="A", wrong=0, failures=0, refreshes=1, extra=0, early=False, acks=0, props=()):
    return ("MC_Keys", dict(models.keys_(suites, wrong, failures, refreshes, extra, early, acks), Scripts=False),
            models.KEYS, list(props))


REQ = range(1, 19)
CTL = range(1, 18)
SYS = system()

LIST = [
    ("Varint", "w[5] >= 64 THEN 8", "w[5] > 64 THEN 8", codec("varint", n=4, alphabet={0, 64})),
    ("Varint", "IF e - i + 1 < n THEN Inc", "IF e - i + 2 < n THEN Inc", codec("varint")),
    ("Varint", "w[7] >= 64 THEN 4", "w[7] >= 32 THEN 4", codec("varint", n=2, alphabet={127, 63, 32})),
    ("PrefixInt", "IF WLeq(WideOf(max), w)", "IF WLeq(WideOf(max + 1), w)", codec("pint", 5)),
    ("PrefixInt", "ELSE IF n = 0 THEN Inc", "ELSE IF n = 0 /\\ m < 2 THEN Inc", codec("pint", 5)),
    ("PrefixInt", "m > 10 \\/ TooLarge(d, 10, m)", "m > 10", codec("pint", 5, 3, {0, 1, 2, 127, 255})),
    ("PrefixInt", "THEN LET d == Digits7(WSub(w, max))", "THEN LET d == Digits7(w)", codec("pint", 5)),
    ("Frame", "IF n > avail THEN res(\"incomplete\"", "IF n > avail + 1 THEN res(\"incomplete\"", codec("frame")),
    ("Frame", "IF avail >= n THEN \"malformed_frame\"", "IF avail + 1 >= n THEN \"malformed_frame\"", codec("frame")),
    ("Frame", "IF code.r # \"ok\" THEN res(\"incomplete\"", "IF code.r # \"ok\" THEN res(\"malformed_frame\"", codec("frame")),
    ("Frame", "IF k = 2 /\\ f[k] = Wide0 THEN <<>>", "IF k = 2 THEN <<>>", codec("frame", n=3, alphabet={4, 2, 9, 5})),
    ("Frame", "<<64 * f[1][8] + 16 * f[2][8]>>", "<<64 * f[1][8] + 32 * f[2][8]>>", codec("frame", n=4, alphabet={0, 4, 16, 80})),
    ("MC_Buffers", "heap' = [heap EXCEPT ![v.a].d[v.from + i] = x]", "heap' = [heap EXCEPT ![v.a].d[v.from + i + 1] = x]", BUFFERS),
    ("MC_Buffers", "ELSE Out(v.a, v.from, v.from + n - 1)", "ELSE Out(v.a, v.from, v.from + n)", BUFFERS),
    ("MC_Buffers", "h == IF part.inline THEN heap ELSE [heap EXCEPT ![v.a].rc = @ + 1]", "h == heap", BUFFERS),
    ("MC_Buffers", "ELSE [h EXCEPT ![v.a].rc = @ - 1]", "ELSE h", BUFFERS),
    ("Buffers", "ELSE <<From(Head(c), n + 1)>> \\o Tail(c)", "ELSE Tail(c)", chains("frame")),
    ("Buffers", "IF Head(f) = d THEN [ok |-> TRUE, c |-> Tail(f)]", "IF Head(f) = d THEN [ok |-> TRUE, c |-> Tail(c)]", chains("varint", ["pop"], 2)),
    ("Receiver", "e.fin = (used = rc.rem)", "e.fin = (Len(b) = used)", recv("server", REQ)),
    ("Receiver", "[] d.r = \"incomplete\" /\\ Len(b) >= rc.rem -> MustFail", "[] d.r = \"incomplete\" /\\ Len(b) > rc.rem -> MustFail", recv("server", REQ)),
    ("Receiver", "ELSE IF e.r = \"finished\" /\\ ~rc.open THEN", "ELSE IF e.r = \"finished\" THEN", recv("server", REQ)),
    ("Receiver", "e.d = SubSeq(b, 1, Len(e.d)))", "TRUE)", recv("server", REQ)),
    ("Receiver", "ELSE IF rc.fin THEN MustFail(rc, e, {\"malformed_frame\"})\n         ELSE IF e.r = \"none\" THEN Yes(rc)\n         ELSE No(\"the next frame is incomplete\")", "ELSE IF e.r = \"none\" THEN Yes(rc)\n         ELSE No(\"the next frame is incomplete\")", recv("server", REQ)),
    ("Receiver", "rc2.rem = 0 /\\ rc2.fin /\\ OnlyUnknown(rc2.buf)", "rc2.rem = 0 /\\ rc2.fin", recv("server", {1, 4, 7}, 3)),
    ("Receiver", "IF rc1.rem = 0 THEN RequestNext([rc1 EXCEPT !.ph = \"trailed\"], role, e)", "IF rc1.rem = 0 THEN RequestNext([rc1 EXCEPT !.ph = \"body\"], role, e)", recv("client", {1, 4, 7}, 3)),
    ("Receiver", "consumed == [rc EXCEPT !.buf = From(b, f.n + 1), !.ph = \"active\"]", "consumed == [rc EXCEPT !.buf = From(b, f.n + 1)]", recv("cserver", {1, 4, 9}, 3)),
    ("Receiver", "ELSE ControlNext([rc0 EXCEPT !.ph = \"settings\", !.buf = From(@, t.n + 1)], role, e)", "ELSE ControlNext([rc0 EXCEPT !.ph = \"settings\", !.buf = From(@, 2)], role, e)", recv("cclient", CTL)),
    ("Receiver", "Receive(rc, d, fin) == [rc EXCEPT !.buf = @ \\o d, !.fin = @ \\/ fin]", "Receive(rc, d, fin) == [rc EXCEPT !.buf = d, !.fin = @ \\/ fin]", recv("cclient", CTL)),
    ("Connection", "IF s.snd.fin /\\ s.rcv.ph = \"done\"", "IF s.snd.fin", SYS),
    ("Connection", "IF s.snd.fin /\\ s.rcv.ph = \"done\"", "IF s.rcv.ph = \"done\"", SYS),
    ("Connection", "!.hs = Invalidate(@, LAMBDA x : x = <<k, id>>),", "!.hs = @,", SYS),
    ("Sender", "ELSE LET t == [s EXCEPT !.out = From(@, n + 1), !.rem = @ - n,\n                                 !.sent = @ + n]", "ELSE LET t == [s EXCEPT !.out = From(@, n + 1), !.rem = @ - n]", system(Bodies=2, Whole=True)),
    ("Sender", "/\\ l.r = \"end\" /\\ l.hs = s.hs", "/\\ l.r = \"end\" /\\ l.hs # s.hs", SYS),
    ("Sender", "Idle(s) == ~s.started \\/ (AllSent(s) /\\ (s.ended => s.fin))", "Idle(s) == ~s.started \\/ AllSent(s)", SYS),
    ("MC_System", "![<<k, id>>].d = From(@, n + 1)", "![<<k, id>>].d = From(@, n + 2)", system(Partial=True, Whole=True)),
    ("MC_System", "/\\ ControlDone(Conn(k).out)\n       /\\ Open(k, id)", "/\\ Open(k, id)", system(Settings=True, Whole=True)),
    ("Quic", "ELSE IF ~IsPrefixOf(e.d, t.pend) THEN", "ELSE IF Len(e.d) > Len(t.pend) THEN", quic()),
    ("Quic", "IF e.fin /\\ ~(t.fin /\\ e.d = t.pend) THEN", "IF e.fin /\\ ~t.fin THEN", quic()),
    ("Quic", "!.finsent = e.fin /\\ e.n = Len(e.d)]", "!.finsent = e.fin]", quic()),
    ("Quic", "[t EXCEPT !.pend = From(@, e.n + 1)", "[t EXCEPT !.pend = From(@, Len(e.d) + 1)", quic()),
    ("Quic", "!.un = @ \\o SubSeq(e.d, 1, e.n)", "!.un = SubSeq(e.d, 1, e.n)", quic(losses=1)),
    ("Quic", "[s EXCEPT !.streams[e.id].un = From(@, e.n + 1)]", "[s EXCEPT !.streams[e.id].un = From(@, e.n + 2)]", quic(losses=1)),
    ("Quic", "\\A x \\in DOMAIN s.streams : Work(s.streams[x]) => x \\in c.blocked", "TRUE", quic(1)),
    ("Quic", "Work(t) == t.pend # <<>> \\/ (t.fin /\\ ~t.finsent)", "Work(t) == t.pend # <<>>", quic(1)),
    ("MC_Quic", "SubSeq(un, at + 1, at + Len(g.d))", "SubSeq(un, 1, Len(g.d))", quic(losses=1)),
    ("Quic", "InitialKeys(s, e, LServer)", "(InitialKeys(s, e, LServer) \\/ InitialKeys(s, e, LClient))", keys(refreshes=0)),
    ("Quic", "/\\ Derived(s, e.iv, md, secret, LIv, IvSize)", "/\\ Len(e.iv) = IvSize", keys(refreshes=0)),
    ("Quic", "/\\ Derived(s, e.hp, MdOf(s.cipher)", "/\\ Derived(s, e.hp, \"sha256\"", keys("B", 1, refreshes=0, props=["Ends"])),
    ("Quic", "e.kind = \"handshake rx\" /\\ SecretKeys(s, e, s.sec.rd)", "e.kind = \"handshake rx\" /\\ SecretKeys(s, e, s.sec.wr)", keys(refreshes=0)),
    ("Quic", "Keys(s, e, MdOf(s.cipher), u.out, KeySize(s.cipher))}}", "Keys(s, e, MdOf(s.cipher), secret, KeySize(s.cipher))}}", keys(props=["Ends"])),
    ("Quic", "Updates(s, e, s.rx)", "Updates(s, e, s.tx)", keys()),
    ("Quic", "[s EXCEPT !.tx = s.key.tx, !.rx = s.key.rx, !.key = NoKey]", "[s EXCEPT !.key = NoKey]", keys(refreshes=2)),
    ("Quic", "s.sec.inst = need /\\ s.sec.over", "s.sec.over", keys(refreshes=0)),
    ("Quic", "QIf(e.r = 0, [t EXCEPT !.dead = TRUE]", "QIf(e.r \\in {0, 1}, [t EXCEPT !.dead = TRUE]", keys(failures=1, refreshes=0)),
    ("Quic", "e.level = s.dat.level /\\ e.d = s.dat.d", "e.d = s.dat.d", keys(refreshes=0)),
    ("Quic", "s.dat.n = 1 /\\ e.r", "e.r", keys(refreshes=0)),
    ("Quic", "s.cr.on /\\ s.hs.last = \"done\" /\\ ~s.completed", "s.cr.on /\\ ~s.completed", keys(refreshes=0)),
    ("Quic", "s.cr.dtp /\\ e.d = s.hs.tp", "s.cr.dtp", keys(refreshes=0)),
    ("Quic", "[] c.fail -> e.r # 0", "[] c.fail -> TRUE", keys(failures=1, refreshes=0)),
    ("Quic", "!.crypto[e.level] = From(@, e.n + 1)]", "!.crypto[e.level] = <<>>]", keys(refreshes=0, acks=1)),
    ("Quic", "\"yes\" ELSE \"failed\", !.hs.last = \"none\"]", "\"yes\" ELSE \"failed\"]", keys(refreshes=0, extra=1, props=["NoTrouble"])),
    ("Quic", "c.prov = \"failed\" -> e.r = ErrCrypto", "c.prov = \"failed\" -> TRUE", keys(failures=1, refreshes=0)),
]


def main():
    todo = [(i, m) for i, m in enumerate(LIST) if m[3] and m[1] and (len(sys.argv) < 2 or str(i) in sys.argv[1:])]
    real, missed = core.copy_spec, []
    for i, (module, old, new, (model, consts, inv, props)) in todo:
        work = core.Work()

        def copy(d):
            real(d)
            p = os.path.join(d, module + ".tla")
            t = open(p).read()
            assert t.count(old) == 1, (i, module, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
            return d
        core.copy_spec = copy
        try:
            core.model_check(work, "m", model, consts, inv, props, 300)
            missed.append(i)
            print("%2d MISSED  %s: %s" % (i, module, new), flush=True)
        except core.CheckError as e:
            why = str(e).split("\n")[1:2]
            print("%2d caught  %s in %s: %s" % (i, module, model, " ".join(why)[:110]), flush=True)
        finally:
            work.close()
    print("%d changes, %d missed" % (len(todo), len(missed)))
    return 1 if missed else 0


if __name__ == "__main__":
    sys.exit(main())
