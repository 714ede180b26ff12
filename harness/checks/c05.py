"""C05: PDUs and messages round-trip and have the RFC wire layout."""
from hypothesis import strategies as st

from harness import bootstrap, gen, ref
from harness.api import Sub, Violation, raises, require, same
from harness.conv import PDUS, from_pdu, from_vbl, to_pdu, to_varbind
from harness.checks.c04 import flags_int, header_tuple, scoped_tuple, types, usm_tuple, v3_tuple

from snmp.ber import ParseError
from snmp.exception import IncomingMessageError
from snmp.message import BadVersion, Message, ProtocolVersion, VersionOnlyMessage
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.pdu import *
from snmp.security import SecurityLevel, SecurityModel
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import OID, OctetString
from snmp.utils import subbytes

RULE = ("generated PDUs of all eight kinds with 0..6 bindings of all value types inside community "
        "messages, scoped PDUs and v3 messages with all header fields and flags; compared with an "
        "independent encoder in both directions; non-trivial = at least one binding, or an "
        "encrypted payload")
ASSUMPTIONS = ["reference encodings in harness/ref.py (RFC 1157/1901/3412/3414/3416) are correct"]

V2 = tuple(PDUS)
LEVELS = {0: (False, False), 1: (True, False), 3: (True, True)}


def views(wire):
    yield wire
    yield subbytes(b"\x30" + wire + b"\x00\x30", 1, 1 + len(wire))


def pdu(case, ctx):
    lit, allowed = case
    obj = to_pdu(lit)
    wire = ref.enc_pdu(lit)
    ctx.label(lit[0], f"{len(lit[4])} bindings")
    ctx.nontrivial(len(lit[4]) > 0)
    same(obj.encode(), wire, "PDU encoding")
    same(from_pdu(obj), lit, "PDU fields")
    same(obj.variableBindings.encode(), ref.enc_vbl(lit[4]), "variable binding list encoding")
    same(from_vbl(VarBindList.decode(ref.enc_vbl(lit[4]))), lit[4], "decoded bindings")
    vbl, n = obj.variableBindings, len(lit[4])
    same((bool(vbl), len(vbl)), (n > 0, n), "truth and length of the bindings")
    for part in (slice(1, None), slice(None, -1), slice(None, None, -1)):
        same(from_vbl(vbl[part]), lit[4][part], f"bindings[{part}]")
    raises(IndexError, lambda: vbl[n], "binding beyond the last")
    if n:
        same(from_vbl([vbl[-1]])[0], lit[4][-1], "last binding")
    for i, vb in enumerate(lit[4]):
        same(from_vbl([obj.variableBindings[i]])[0], vb, f"binding {i}")
        same(VarBind.decode(ref.enc_varbind(vb)), to_varbind(vb), f"decoded binding {i}")
    for source in views(wire):
        back = PDUS[lit[0]].decode(source)
        same(from_pdu(back), lit, "decoded PDU")
        require(back == obj, "decoded PDU differs from the original")
    if lit[0] != allowed:
        raises(ParseError, lambda: PDUS[allowed].decode(wire), f"decoding {lit[0]} as {allowed}")
        try:
            other = to_pdu((allowed,) + lit[1:])
        except ValueError:
            return
        require(not (other == obj), "{} and {} PDUs with equal fields compare equal", lit[0], allowed)


KINDSETS = st.lists(st.sampled_from(V2), max_size=8, unique=True).map(tuple)


def community(case, ctx):
    version, name, lit, allowed = case
    wire = ref.enc_community(version, name, lit)
    ctx.label(f"version {version}", "allowed" if lit[0] in allowed else "not allowed")
    ctx.nontrivial(len(lit[4]) > 0)
    for source in views(wire):
        if version not in (0, 1):
            raises(BadVersion, lambda: Message.decode(source, types=types(V2)),
                   f"community message with version {version}")
        elif lit[0] not in allowed:
            raises(ParseError, lambda: Message.decode(source, types=types(allowed)),
                   f"{lit[0]} PDU when only {allowed} are acceptable")
        else:
            back = Message.decode(source, types=types(allowed))
            same((int(back.version), back.community, from_pdu(back.pdu)), (version, name, lit),
                 "decoded message")
            require(isinstance(back.version, ProtocolVersion), "version is not a ProtocolVersion")
        if version in (0, 1, 3):
            same(int(VersionOnlyMessage.decode(source).version), version, "version peek")
        else:
            raises(BadVersion, lambda: VersionOnlyMessage.decode(source), "version peek")
    if version in (0, 1):
        same(Message(ProtocolVersion(version), name, to_pdu(lit)).encode(), wire,
             "community message encoding")
        raises(IncomingMessageError, lambda: SNMPv3Message.decode(wire), "v3 decode of v1/v2c")


def v3(case, ctx):
    mid, size, flags, usm, engine, name, lit, cipher, model = case
    usm_wire = ref.enc_usm(*usm)
    header = ref.enc_header(mid, size, flags)
    scoped = ref.enc_scoped(engine, name, lit)
    payload = ref.enc_oct(cipher) if flags & 2 else scoped
    wire = ref.enc_v3(header, usm_wire, payload)
    ctx.label(f"flags {flags}")
    ctx.nontrivial(bool(flags & 2) or len(lit[4]) > 0)

    level = SecurityLevel(*LEVELS[flags & 3])
    mflags = MessageFlags(level, bool(flags & 4))
    hd = HeaderData(mid, size, mflags, SecurityModel.USM)
    sp = ScopedPDU(to_pdu(lit), engine, name)
    up = UsmSecurityParameters(*usm)
    same(mflags.encode(), ref.enc_oct(bytes([flags])), "msgFlags encoding")
    same(hd.encode(), header, "header encoding")
    same(sp.encode(), scoped, "scoped PDU encoding")
    same(up.encode(), usm_wire, "security parameters encoding")
    if flags & 2:
        m = SNMPv3Message(hd, encryptedPDU=OctetString(cipher),
                          securityParameters=OctetString(usm_wire))
    else:
        m = SNMPv3Message(hd, scopedPDU=sp, securityParameters=OctetString(usm_wire))
        same(m.plaintext, scoped, "plaintext")
    same(m.encode(), wire, "message encoding")

    expected = ((mid, size, flags, 3), usm_wire, cipher if flags & 2 else (engine, name, lit))
    for source in views(wire):
        back = SNMPv3Message.decode(source)
        same(v3_tuple(back), expected, "decoded message")
        same(back.header.flags.securityLevel, level, "security level")
        same(usm_tuple(UsmSecurityParameters.decode(back.securityParameters.original)), usm,
             "decoded security parameters")
        if flags & 2:
            back.plaintext = scoped + bytes(len(cipher) % 8)
            same(scoped_tuple(back.scopedPDU), (engine, name, lit), "decrypted scoped PDU")
    reserved = ref.enc_header(mid, size, flags | len(cipher) % 32 << 3)     # to be ignored
    same(header_tuple(HeaderData.decode(reserved)), (mid, size, flags, 3), "header with reserved "
         "flags set")
    for source in views(header):
        same(header_tuple(HeaderData.decode(source)), (mid, size, flags, 3), "decoded header")
    for source in views(scoped):
        same(scoped_tuple(ScopedPDU.decode(source, types=types(V2))), (engine, name, lit),
             "decoded scoped PDU")
        raises(ParseError, lambda: ScopedPDU.decode(
            source, types=types(k for k in V2 if k != lit[0])), "scoped PDU of excluded type")
        raises(ParseError, lambda: ScopedPDU.decode(source), "scoped PDU without types")
    for source in views(usm_wire):
        same(usm_tuple(UsmSecurityParameters.decode(source)), usm, "decoded security parameters")
    raises(IncomingMessageError, lambda: Message.decode(wire, types=types(V2)),
           "community decode of a v3 message")
    if model != 3:
        raises(IncomingMessageError, lambda: HeaderData.decode(ref.enc_header(mid, size, flags, model)),
               f"security model {model}")
    bad = ref.enc_v3(ref.enc_header(mid, size, 2 | (flags & 4)), usm_wire, ref.enc_oct(cipher))
    raises(IncomingMessageError, lambda: SNMPv3Message.decode(bad), "privacy without authentication")
    for i, s in ((-1 - mid, size), (mid, size % 484), (mid, -size)):
        raises(IncomingMessageError, lambda: HeaderData.decode(ref.enc_header(i, s, flags)),
               f"header with id {i}, size {s}")


def flags(case, ctx):
    """Message flags that are changed one by one.  (Impossible combinations raise ValueError.)"""
    first, edits = case
    want = list(LEVELS[first & 3]) + [bool(first & 4)]
    m = MessageFlags(SecurityLevel(*want[:2]), want[2])
    for which, value in edits:
        new = list(want)
        new[which] = bool(value)
        name = ("authFlag", "privFlag", "reportableFlag")[which]
        if new[1] and not new[0]:
            raises(ValueError, lambda: setattr(m, name, value), f"{name} = {value}")
            ctx.label("refused")
        else:
            setattr(m, name, value)
            want = new
        byte = want[0] + 2 * want[1] + 4 * want[2]
        same((bool(m.authFlag), bool(m.privFlag), bool(m.reportableFlag)), tuple(want), "flags")
        same(m.encode(), ref.enc_oct(bytes([byte])), "msgFlags encoding")
        same(m.securityLevel, SecurityLevel(*want[:2]), "security level")
        back = MessageFlags.decode(m.encode())
        same((back.securityLevel, back.reportableFlag), (m.securityLevel, want[2]),
             "decoded flags")
    levels = [SecurityLevel(*LEVELS[x]) for x in (0, 1, 3)]
    for i, a in enumerate(levels):
        for j, b in enumerate(levels):
            same((a < b, a >= b, a == b), (i < j, i >= j, i == j), f"order of {a} and {b}")
    ctx.nontrivial(len(edits) > 2)


def many(pdus):
    """Now and then a PDU with hundreds of bindings."""
    def grow(t):
        lit, n = t
        vbs = lit[4] * (n // max(1, len(lit[4])))
        return lit[:4] + (tuple((o + (i,), v) if len(o) < 99 else (o, v)
                                for i, (o, v) in enumerate(vbs)),)
    large = st.tuples(pdus, st.integers(10, 700)).map(grow)
    return st.integers(0, 49).flatmap(lambda n: pdus if n else large)


def v3_cases():
    return st.tuples(
        gen.uint31(), gen.ints(484, 2**31 - 1), st.sampled_from([0, 1, 3, 4, 5, 7]),
        st.tuples(gen.blobs(64), gen.uint31(), gen.uint31(), gen.blobs(64), gen.blobs(64),
                  gen.blobs(16)),
        gen.blobs(64), gen.blobs(300), gen.pdus(max_size=3), gen.blobs(400),
        st.sampled_from([3, 3, 0, 1, 2, 4, -1, 2**31 - 1, 256, 259]))


SUBS = [
    Sub("flags", lambda: st.tuples(st.sampled_from([0, 1, 3, 4, 5, 7]), gen.sized(st.tuples(
        st.integers(0, 2), st.sampled_from([True, False, 1, 0])), 1, 8)), flags, 800),
    Sub("pdu", lambda: st.tuples(many(gen.pdus(max_size=6)), st.sampled_from(V2)), pdu, 8000),
    Sub("community", lambda: st.tuples(
        st.sampled_from([0, 1, 0, 1, 0, 1, 3, 2, 4, -1, 256, 257, 2**31 - 1]), gen.blobs(300),
        gen.pdus(max_size=3), st.one_of(st.just(V2), KINDSETS)), community, 8000),
    Sub("v3", v3_cases, v3, 6000),
]
