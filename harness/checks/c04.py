"""C04: decoding arbitrary bytes never fails with anything but a parse error."""
from hypothesis import strategies as st

from harness import bootstrap, gen, ref
from harness.api import Sub, Violation, require, same, short
from harness.conv import CLS, PDUS, from_pdu, from_value, from_vbl
from harness.mutate import damaged

from snmp.exception import IncomingMessageError
from snmp.message import Message, VersionOnlyMessage
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.pdu import VarBind, VarBindList
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.utils import subbytes

RULE = ("a valid encoding of a generated object is damaged at generated tree nodes (tag, length "
        "field, contents, missing/duplicate/swapped/trailing children) or at generated bytes, or "
        "plain random bytes; decoded as the same or another type and compared with an independent "
        "reader; non-trivial = the input is not a verbatim valid encoding and is longer than 2 bytes")
ASSUMPTIONS = ["reference reader in harness/ref.py is correct",
               "forms that BER forbids but whose meaning is unambiguous (empty INTEGER, NULL with "
               "contents, padded tags/sub-identifiers, length octet 0x80 read as 0) may be either "
               "accepted with that meaning or rejected"]

V1 = ("get", "next", "resp", "set")
V2 = tuple(PDUS)


def types(kinds):
    return {PDUS[k].TAG: PDUS[k] for k in kinds}


def usm_tuple(p):
    return (p.engineID, p.engineBoots, p.engineTime, p.userName, p.signature, p.salt)


def flags_int(f):
    return (1 if f.authFlag else 0) | (2 if f.privFlag else 0) | (4 if f.reportableFlag else 0)


def header_tuple(h):
    return (h.id, h.maxSize, flags_int(h.flags), int(h.securityModel))


def scoped_tuple(s):
    return (s.contextEngineID, s.contextName, from_pdu(s.pdu))


def v3_tuple(m):
    h = header_tuple(m.header)
    if h[2] & 2:
        require(m.scopedPDU is None, "an encrypted message was decoded with a clear scoped PDU")
        payload = m.encryptedPDU.data
    else:
        require(m.encryptedPDU is None, "a clear message was decoded with an encrypted payload")
        payload = scoped_tuple(m.scopedPDU)
    return (h, m.securityParameters.data, payload)


def plaintext(data):
    m = SNMPv3Message.__new__(SNMPv3Message)
    m.scopedPDU = None
    m.plaintext = data if isinstance(data, bytes) else data[:]
    return m.scopedPDU


TARGETS = {}
for _k in CLS:
    TARGETS[_k] = (CLS[_k].decode, lambda o, k=_k: from_value(o, k), lambda r, d, k=_k: r.value(d, k))
TARGETS["varbind"] = (VarBind.decode, lambda o: from_vbl([o])[0], lambda r, d: r.varbind(d))
TARGETS["vbl"] = (VarBindList.decode, from_vbl, lambda r, d: r.vbl(d))
for _k in PDUS:
    TARGETS["pdu-" + _k] = (PDUS[_k].decode, from_pdu, lambda r, d, k=_k: r.pdu(d, (k,)))
for _n, _kinds in (("msg-v1", V1), ("msg-v2", V2), ("msg-none", ())):
    TARGETS[_n] = (lambda d, t=types(_kinds): Message.decode(d, types=t),
                   lambda m: (int(m.version), m.community, from_pdu(m.pdu)),
                   lambda r, d, k=_kinds: r.community(d, k))


def _version(r, d):
    body, _ = r.expect(d, 0x30, True)
    n, _ = r.int32(body)
    if n not in (0, 1, 3):
        raise ref.Reject("version")
    return n


def _flags(r, d):
    body, _ = r.octets(d, True)
    _, rest = r.header(ref.enc_seq(ref.enc_int(1), ref.enc_int(484), ref.enc_oct(body), ref.enc_int(3)))
    return body[0] & 7


TARGETS["version"] = (VersionOnlyMessage.decode, lambda m: int(m.version), _version)
TARGETS["flags"] = (MessageFlags.decode, flags_int, _flags)
TARGETS["header"] = (HeaderData.decode, header_tuple, lambda r, d: r.header(d, True)[0])
TARGETS["scoped"] = (lambda d: ScopedPDU.decode(d, types=types(V2)), scoped_tuple,
                     lambda r, d: r.scoped(d, V2))
TARGETS["plaintext"] = (plaintext, scoped_tuple, lambda r, d: r.scoped(d, V2, whole=False))
TARGETS["usm"] = (UsmSecurityParameters.decode, usm_tuple, lambda r, d: r.usm(d))
TARGETS["v3"] = (SNMPv3Message.decode, v3_tuple, lambda r, d: r.v3(d, V2))


def valid_for(target):
    """Strategy of valid encodings for a target."""
    if target in CLS:
        if target in ref.NULLS:
            return st.just(ref.enc_value((target,)))
        return gen.value_of(target).map(ref.enc_value)
    if target == "varbind":
        return gen.varbinds().map(ref.enc_varbind)
    if target == "vbl":
        return gen.vbls().map(ref.enc_vbl)
    if target.startswith("pdu-"):
        return gen.pdus(kinds=(target[4:],)).map(ref.enc_pdu)
    if target in ("msg-v1", "msg-v2", "msg-none"):
        return st.builds(ref.enc_community, st.integers(0, 1), gen.blobs(20),
                         gen.pdus(kinds=V1 if target == "msg-v1" else V2, max_size=2))
    header = st.builds(ref.enc_header, gen.uint31(), gen.ints(484, 2**31 - 1),
                       st.sampled_from([0, 1, 3, 4, 5, 7]))
    scoped = st.builds(ref.enc_scoped, gen.blobs(20), gen.blobs(20), gen.pdus(max_size=2))
    usm = st.builds(ref.enc_usm, gen.blobs(20), gen.uint31(), gen.uint31(), gen.blobs(20),
                    gen.blobs(20), gen.blobs(20))
    if target == "flags":
        return st.integers(0, 255).map(lambda n: ref.enc_oct(bytes([n])))
    if target == "header":
        return header
    if target in ("scoped", "plaintext"):
        return scoped
    if target == "usm":
        return usm
    v3 = st.builds(lambda i, m, f, u, s, c: ref.enc_v3(
        ref.enc_header(i, m, f), u, ref.enc_oct(c) if f & 2 else s),
        gen.uint31(), gen.ints(484, 2**31 - 1), st.sampled_from([0, 1, 3, 4, 5, 7]), usm, scoped,
        gen.blobs(60))
    if target == "v3":
        return v3
    return st.one_of(v3, st.builds(ref.enc_community, st.sampled_from([0, 1, 2, 3, -1, 256]),
                                   gen.blobs(10), gen.pdus(max_size=1)))


def check(target, data, ctx):
    decode, convert, reference = TARGETS[target]
    verdict, expected = ref.attempt(lambda r: reference(r, data))
    ctx.label(verdict)
    pad = bytes([len(data) & 0xff])
    for source in (data, subbytes(pad + data + pad, 1, 1 + len(data))):
        try:
            obj = decode(source)
        except IncomingMessageError:
            require(verdict != "accept", "{}: rejected a valid encoding of {}", target,
                    short(expected))
            continue
        except Exception as err:
            raise Violation(f"decoding as {target} raised {type(err).__name__}: {err}") from err
        got = convert(obj)
        require(verdict != "reject", "{}: accepted an invalid encoding as {}", target, short(got))
        same(got, expected, f"decoded {target}")


def run(case, ctx):
    target, data = case
    ctx.nontrivial(len(data) > 2)
    ctx.label(target.split("-")[0] if target not in CLS else "smi")
    check(target, data, ctx)


def strategy_for(names):
    names = tuple(names)

    @st.composite
    def strategy(draw):
        target = draw(st.sampled_from(names))
        source = target
        if draw(st.integers(0, 11)) == 0:
            source = draw(st.sampled_from(names))
        kind = draw(st.integers(0, 19))
        if kind == 0:
            return (target, draw(st.binary(max_size=40)))
        return (target, draw(damaged(VALID[source])))
    return strategy


VALID = {t: valid_for(t) for t in TARGETS}
SMI = tuple(CLS)
WEIGHTED = SMI + ("oid", "oid", "int", "c64", "tt", "g32", "c32", "ip", "oct", "opaque") * 2
PDU = ("varbind", "vbl") + tuple(t for t in TARGETS if t.startswith("pdu-"))
MSG = tuple(t for t in TARGETS if t not in SMI and t not in PDU)


def every_short(tier):
    """Every content of at most one octet (and selected two-octet ones) for every SMI type."""
    for target in SMI + ("flags", "version"):
        ident = ref.IDENT.get(target, 0x04 if target == "flags" else 0x30)
        bodies = [b""] + [bytes([a]) for a in range(256)]
        bodies += [bytes([a, b]) for a in (0, 1, 0x2b, 0x77, 0x78, 0x7f, 0x80, 0x81, 0xff)
                   for b in range(256)]
        for body in bodies:
            yield (target, ref.tlv(ident, body))


SUBS = [
    Sub("short", run=run, cases=every_short),
    Sub("smi", strategy_for(WEIGHTED), run, 24000),
    Sub("pdu", strategy_for(PDU), run, 16000),
    Sub("message", strategy_for(MSG), run, 20000),
]
