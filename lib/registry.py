"""What each check runs."""
import gens, sysgens, obsgens, qifgens, quicgens, appgens, models

THOROUGH_S = 600


def parts(*gs, module="Trace"):
    """gs: (name, generator, quick size[, module]). Thorough: bigger, again and again."""
    gs = [g if len(g) == 4 else g + (module,) for g in gs]

    def run(run):
        for name, gen, big, module in gs:
            run.traces_part(name, gen(run.rng(name), big), module)
        if run.tier == "thorough":
            k = 1
            while run.left(THOROUGH_S) > 0 and not run.violations:
                for name, gen, big, module in gs:
                    if run.left(THOROUGH_S) > 0 and not run.violations:
                        run.traces_part("%s-%d" % (name, k), gen(run.rng(name, k), 3 * big), module)
                k += 1
    return run


def both(model, rest):
    """The bounded model and its behaviours, then generated scripts."""
    def run(run):
        model(run)
        rest(run)
    return run


def check(run, level="exploration", assumptions=(), driver=None):
    return {"run": run, "level": level, "assumptions": list(assumptions), "driver": driver}


MC = "model_checking"


def sys_(r, h, b, partial=False, whole=False, settings=False):
    return dict(Requests=r, Headers=h, Bodies=b, Partial=partial, Whole=whole, Settings=settings)


CHECKS = {
    "C01": check(both(models.codec("varint", [0], ({0, 1, 63, 64, 127, 128, 191, 192, 255}, 3),
                                   ({0, 1, 63, 64, 127, 128, 191, 192, 255}, 5)),
                      parts(("varints", gens.varints, 4))), MC),
    "C02": check(both(models.codec("frame", [0], ({0, 1, 2, 6, 9, 64, 255}, 3), ({0, 1, 2, 6, 9, 64, 255}, 4)),
                      parts(("frames", gens.frames, 6))), MC),
    "C03": check(both(models.codec("frame", [0], ({0, 1, 2, 4, 5, 33, 64}, 3), ({0, 1, 2, 3, 4, 5, 33, 64, 192}, 4)),
                      parts(("frame_decodes", gens.frame_decodes, 4))), MC),
    "C04": check(both(models.chains([("frame", 0, range(1, 9), 1, 2, (), 1),
                                     ("frame", 0, {1, 2, 6}, 2, 3, (), 0),
                                     ("varint", 0, range(1, 5), 2, 3, (), 0),
                                     ("pint", 5, range(1, 5), 2, 3, (), 0),
                                     ("lit", 7, range(1, 5), 1, 2, (), 1)]),
                      parts(("segmentation", gens.segmentation, 4))), MC),
    "C05": check(both(models.codec("pint", [1, 3, 4, 6, 7], ({0, 1, 2, 127, 128, 255}, 3),
                                   ({0, 1, 2, 127, 128, 129, 254, 255}, 4)),
                      parts(("prefix_ints", gens.prefix_ints, 5))), MC),
    "C06": check(both(models.codec("huff", [0], ({0, 10, 48, 97, 127, 248, 254, 255}, 3),
                                   ({0, 10, 48, 97, 127, 224, 248, 254, 255}, 4)),
                      parts(("huffmans", gens.huffmans, 4))), MC),
    "C07": check(both(models.codec("lit", [3, 7], ({0, 2, 48, 97, 127, 129, 255}, 3),
                                   ({0, 1, 2, 48, 97, 127, 129, 255}, 4)),
                      parts(("literals", gens.literals, 4))), MC),
    "C08": check(both(models.codec("line", [0], ({0, 1, 2, 65, 97, 130, 255}, 3), ({0, 1, 2, 65, 97, 130, 255}, 4)),
                      parts(("header_lists", gens.header_lists, 4))), MC),
    "C09": check(both(models.codec("line", [0], ({0, 1, 36, 65, 97, 130, 220}, 3),
                                   ({0, 1, 35, 36, 65, 97, 130, 220, 255}, 4)),
                      parts(("header_blocks", gens.header_blocks, 4))), MC),
    "C10": check(both(models.buffers(({1, 2}, {0, 2, 3, 4}, 4), ({1, 2, 3}, {0, 2, 3, 4}, 5)),
                      parts(("buffers", gens.buffers, 5))), MC),
    "C11": check(both(models.chains([("frame", 0, {1, 2, 6}, 2, 2, {"slice", "consume", "pop"}, 2),
                                     ("varint", 0, {1, 3}, 2, 3, {"slice", "pop"}, 2)]),
                      parts(("buffer_chains", gens.buffer_chains, 5))), MC),
    "C12": check(both(models.recv("recv", ["client", "server"], [(models.VALID, 2, 3), ({1, 4, 7}, 3, 1)], [(models.VALID, 3, 3)]),
                      parts(("messages", gens.r12, 4))), MC),
    "C13": check(both(models.recv("ends", ["client", "server"], [({1, 2, 3, 4, 6, 9, 11}, 2, 9), ({1, 4, 7}, 3, 2)],
                                  [({1, 2, 3, 4, 5, 6, 9, 10, 11}, 3, 5)], properties=["Finishes"]),
                      parts(("endings", gens.r13, 3))), MC),
    "C14": check(both(models.recv("order", ["client", "server"], [(models.REQUEST_TOKENS, 2, 1), ({1, 3, 7, 13}, 3, 0)],
                                  [(models.REQUEST_TOKENS, 3, 2), ({1, 3, 4, 7, 13}, 4, 0)]),
                      parts(("sequences", gens.r14, 4))), MC),
    "C15": check(both(models.recv("ctl", ["cclient", "cserver"], [(models.CONTROL_TOKENS, 2, 3), ({1, 4, 6, 9, 10}, 3, 0)],
                                  [(models.CONTROL_TOKENS, 3, 3), ({1, 4, 6, 8, 9, 10}, 4, 1)]),
                      parts(("control", gens.r15, 4))), MC),
    "C16": check(both(models.system("sending", [sys_(1, 1, 0, whole=True, settings=True)],
                                    [sys_(1, 2, 1, settings=True)]),
                      parts(("senders", sysgens.senders, 5))), MC),
    "C17": check(both(models.system("exchange", [sys_(1, 1, 1)],
                                    [sys_(1, 2, 2), sys_(1, 1, 1, partial=True), sys_(2, 1, 1, whole=True)]),
                      parts(("endtoend", sysgens.endtoend, 5))), MC),
    "C18": check(both(models.system("streams", [sys_(2, 1, 0, whole=True)],
                                    [sys_(2, 1, 1, whole=True), sys_(3, 1, 0, whole=True)]),
                      parts(("isolation", sysgens.isolation, 5))), MC),
    "C19": check(both(models.system("handles", [sys_(1, 2, 0)],
                                    [sys_(1, 2, 1), sys_(2, 1, 0, whole=True)]),
                      parts(("handles", sysgens.handles, 6))), MC),
    "C20": check(both(models.system("closing", [sys_(1, 1, 0, partial=True)],
                                    [sys_(1, 1, 1, partial=True)], live=[sys_(1, 1, 0)]),
                      parts(("lifetimes", sysgens.lifetimes, 6))), MC),
    "C21": check(parts(("robust", gens.robust, 5))),
    "C22": check(parts(("qif", qifgens.qif, 4)), driver="qifdriver.py"),
    "C23": check(both(models.transfers([models.quic_(2, 1)], [models.quic_(2, 2, 2, 0), models.quic_(1, 4, 3, 3)],
                                       [models.quic_(1, 2)], [models.quic_(2, 1)]),
                      parts(("streams", quicgens.quic_streams, 5), module="TraceQuic")), MC),
    "C24": check(both(models.handshakes([models.keys_("B", 0, 1, 1, 1, True, 0), models.keys_("C", 1, 0, 0, 0, False, 0)],
                                        [models.keys_("ABC", 0, 1, 2, 1, True, 1), models.keys_("B", 0, 2, 1, 1, True, 1),
                                         models.keys_("B", 1, 0, 1, 0, True, 0), models.keys_("C", 1, 1, 1, 0, False, 0)],
                                        [models.keys_("C", 0, 0, 1, 1, False, 0)], [models.keys_("A", 0, 1, 1, 0, False, 0)]),
                      parts(("handshakes", quicgens.quic_handshakes, 5), module="TraceQuic")), MC),
    "C25": check(parts(("interface", quicgens.quic_interface, 6), module="TraceQuic")),
    "C26": check(parts(("messages", obsgens.messages, 4), ("observed", obsgens.observed, 3),
                       ("quic_logs", obsgens.quic_logs, 3, "TraceQuic"))),
    "C27": check(parts(("outcomes", appgens.outcome, 2), module="TraceApp")),
    "C28": check(parts(("values", obsgens.values, 4))),
    "C29": check(parts(("loops", appgens.loop, 3), module="TraceApp")),
}

Q = "TLA+ trace validation (TLC) against stand-ins of ngtcp2 and BoringSSL"
QN = ("Every recorded call of the explored scripts is a behaviour of the TLA+ specification. "
      "ngtcp2 and BoringSSL are absent from this sandbox: the code runs against stand-ins that "
      "record its calls and answer as the script says; cryptography is symbolic. Inputs are "
      "generated (seeded), not exhausted.")
QM = ("TLC on a bounded TLA+ model of the client's streams, a transport that loses packets and a peer, its "
      "behaviours replayed into the code, and TLA+ trace validation (TLC) against stand-ins of ngtcp2 and BoringSSL")
QMN = ("What is handed to the transport is checked exhaustively, within the bounds in lib/registry.py, to "
       "imply that the peer gets exactly what was added. " + QN)
QK = ("TLC on a bounded TLA+ model of the handshake, the TLS library, the transport's keys and a peer that derives "
      "its own, its behaviours replayed into the code, and TLA+ trace validation (TLC) against stand-ins of ngtcp2 "
      "and BoringSSL")
QKN = ("What is demanded of key derivation, installation, updates, handshake data and results is checked "
       "exhaustively, within the bounds in lib/registry.py (including wrong derivations, mixed up keys, skipped "
       "steps and failing libraries), to imply that both sides have the same keys and that failures are told. " + QN)
NOTES = {"C23": (QM, QMN), "C24": (QK, QKN), "C25": (Q, QN)}
NOTES["C26"] = ("TLA+ trace validation (TLC), the QUIC client against stand-ins",
                "Every recorded call of the explored scripts is a behaviour of the TLA+ specification, "
                "which does not know of loggers but for their messages; scripts of all other checks are "
                "run without and with a logger. Inputs are generated (seeded), not exhausted.")
AT = "TLA+ trace validation (TLC) of the program against stand-ins of the socket, name service, event loop, transport and TLS"
AN = ("Every recorded call of the explored scripts is a behaviour of the TLA+ specification of the "
      "program (spec/App.tla). systemd, ngtcp2 and BoringSSL are absent from this sandbox: the "
      "program's sources are built against stand-ins that record its calls and answer as the script "
      "says. Inputs are generated (seeded), not exhausted.")
NOTES.update({"C27": (AT, AN), "C29": (AT, AN)})
R = "TLC on a bounded TLA+ model of one receiver, its behaviours replayed into the code, and TLA+ trace validation (TLC)"
RN = ("The acceptor that judges the implementation is checked exhaustively, within the bounds in "
      "lib/registry.py (streams of a few tokens, every way of cutting them into pieces, events "
      "asked for at any time), against a one-shot definition of what a stream means. Behaviours "
      "of that model and generated scripts are run on the code, and every recorded call must be "
      "a behaviour of the specification; those inputs are sampled (seeded), not exhausted.")
S = "TLC on a bounded TLA+ model of a client, a server and the network, its behaviours replayed into the code, and TLA+ trace validation (TLC)"
SN = ("A client, a server and a network that delays, cuts and reorders across streams are checked "
      "exhaustively within the bounds in lib/registry.py. Behaviours of that model and generated "
      "scripts are run on the code, and every recorded call must be a behaviour of the "
      "specification; those inputs are sampled (seeded), not exhausted.")
B = "TLC on a bounded TLA+ model of %s, its states or behaviours replayed into the code, and TLA+ trace validation (TLC)"
BN = ("%s is checked exhaustively within the bounds in lib/registry.py. What that reaches, and "
      "generated scripts, are run on the code, and every recorded call must be a behaviour of the "
      "specification; beyond the bounds inputs are sampled (seeded), not exhausted.")
NOTES.update({p: (B % "the codec", BN % "The codec of the specification, over all short strings of a few bytes,")
              for p in ("C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09")})
NOTES["C10"] = (B % "counted, shared buffers", BN % "The design of the buffers, which refines independent byte strings,")
NOTES.update({p: (B % "chains of buffers", BN % "Every way of cutting a few items into pieces")
              for p in ("C04", "C11")})
NOTES.update({p: (R, RN) for p in ("C12", "C13", "C14", "C15")})
NOTES.update({p: (S, SN) for p in ("C16", "C17", "C18", "C19", "C20")})
NOT_APPLICABLE = {}
