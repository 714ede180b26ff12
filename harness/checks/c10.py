"""C10: representations evaluate back, text forms show the contents, equality discriminates."""
from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, Violation, require, same, short

import snmp.asn1
import snmp.ber
import snmp.message.core
import snmp.message.v3
import snmp.message.version
import snmp.pdu
import snmp.security.levels
import snmp.security.models
import snmp.security.usm.parameters
import snmp.smi
import snmp.utils
from snmp.message.core import Message
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.message.version import ProtocolVersion, VersionOnlyMessage
from snmp.pdu import GetBulkRequestPDU, VarBind, VarBindList
from snmp.security.levels import SecurityLevel
from snmp.security.models import SecurityModel
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.utils import subbytes

from harness import conv, gen, ref

RULE = ("values, bindings, lists, PDUs, scoped PDUs, whole messages and their headers, flags and "
        "security parameters, both constructed and decoded from the wire "
        "(where octet strings keep a reference to the received bytes); equality is checked on pairs "
        "that differ in exactly one generated field and on random pairs; non-trivial = at least one "
        "variable binding, or a pair that differs")
ASSUMPTIONS = ["Gauge32/Unsigned32 and OID/OBJECT_IDENTIFIER share a wire type; their mutual "
               "equality is left open"]

NAMESPACE = {}
for module in (snmp.utils, snmp.ber, snmp.asn1, snmp.smi, snmp.pdu, snmp.message.version,
               snmp.message.core, snmp.message.v3, snmp.security.levels, snmp.security.models,
               snmp.security.usm.parameters):
    NAMESPACE.update({k: v for k, v in vars(module).items() if not k.startswith("_")})


def evaluate(obj, what):
    text = repr(obj)
    try:
        back = eval(text, dict(NAMESPACE))
    except Exception as err:
        raise Violation(f"{what}: repr {short(text)} does not evaluate: {err!r}") from err
    require(type(back) is type(obj), "{}: repr {} evaluates to a {}", what, short(text),
            type(back).__name__)
    require(back == obj and obj == back and not (back != obj),
            "{}: repr {} evaluates to the unequal {}", what, short(text), short(back))
    return back


def text_of(obj, what):
    text = str(obj)
    require(type(text) is str and (text or isinstance(obj, VarBindList)), "{}: no text form", what)
    return text


def show_bindings(text, vbl, what):
    at = 0
    for vb in vbl:
        piece = str(vb)
        found = text.find(piece, at)
        require(found >= 0, "{}: text form lacks the binding {}", what, short(piece))
        at = found + len(piece)
        require(".".join(map(str, vb.name)) in piece, "binding text {} lacks its name", short(piece))
        require(str(vb.value) in piece, "binding text {} lacks its value", short(piece))
        value = getattr(vb.value, "value", None)
        if type(value) is int:
            require(str(value) in piece, "binding text {} lacks the number", short(piece))


def outline(obj):
    """-> the (depth, text) of each line; texts that begin with ": " follow some label."""
    head = [(0, type(obj).__name__ + ":")]
    deeper = lambda lines: [(d + 1, t) for d, t in lines]
    fields = lambda *values: [(1, ": " + str(v)) for v in values]
    if isinstance(obj, VarBindList):
        dotted = lambda oid: ".".join(map(str, oid))
        return [(0, dotted(vb.name) + ": " + (
            dotted(vb.value) if isinstance(vb.value, snmp.smi.OID) else repr(vb.value)))
            for vb in obj]
    if isinstance(obj, MessageFlags):
        level = ("auth" if obj.authFlag else "noAuth") + ("Priv" if obj.privFlag else "NoPriv")
        return head + fields(level, bool(obj.reportableFlag))
    if isinstance(obj, HeaderData):
        return head + fields(obj.id, obj.maxSize) + deeper(outline(obj.flags)) + fields("USM")
    if isinstance(obj, UsmSecurityParameters):
        return head + fields(repr(obj.engineID), obj.engineBoots, obj.engineTime,
                             repr(obj.userName), repr(obj.signature), repr(obj.salt))
    if isinstance(obj, ScopedPDU):
        return head + fields(repr(obj.contextEngineID), repr(obj.contextName)) \
            + deeper(outline(obj.pdu))
    if isinstance(obj, SNMPv3Message):
        payload = fields(repr(obj.encryptedPDU)) if obj.header.flags.privFlag \
            else deeper(outline(obj.scopedPDU))
        return head + deeper(outline(obj.header)) + fields(repr(obj.securityParameters)) + payload
    if isinstance(obj, Message):
        return head + fields(repr(obj.community)) + deeper(outline(obj.pdu))
    ab = (obj.nonRepeaters, obj.maxRepetitions) if isinstance(obj, GetBulkRequestPDU) \
        else (obj.errorStatus.name, obj.errorIndex)
    return head + fields(obj.requestID, *ab) + [(1, ":")] \
        + deeper(deeper(outline(obj.variableBindings)))


def check_outline(obj, what):
    text = str(obj)
    lines = [x for x in text.split("\n")]
    if lines and not lines[-1]:
        lines.pop()                         # of an empty list
    want = outline(obj)
    for i, line in enumerate(lines):
        body = line.lstrip(" ")
        depth, rest = want[i] if i < len(want) else (None, "")
        ok = depth is not None and len(line) - len(body) == 4 * depth and (
            body.endswith(rest) if rest.startswith(":") else body == rest)
        require(ok, "{}: line {} of the text is {!r}, expected {} at depth {}", what, i + 1, line,
                short(rest), depth)
    same(len(lines), len(want), f"{what}: lines of the text")


def values(case, ctx):
    v, wire, at, tail = case
    obj = conv.to_value(v)
    ctx.label(v[0], "decoded" if wire else "constructed")
    ctx.nontrivial(len(v) > 1)
    if wire:
        data = obj.encode()
        if wire == 2:                       # out of the middle of a longer message
            data = subbytes(b"\x00" * at + data + tail, at, at + len(data))
        obj = type(obj).decode(data)
    same(conv.from_value(evaluate(obj, "value")), v, "evaluated repr")
    text_of(obj, "value")
    vb = VarBind(conv.to_value(("oid", (1, 3, 6, at))), obj)
    back = evaluate(vb, "binding")
    same(conv.from_value(back.value), v, "evaluated binding value")
    show_bindings(str(vb), [vb], "binding")


def pdu_repr(case, ctx):
    pdu, wire, ctxeid, ctxname = case
    obj = conv.to_pdu(pdu)
    ctx.label(pdu[0], "decoded" if wire else "constructed", f"bindings={len(pdu[4])}")
    ctx.nontrivial(len(pdu[4]) > 0)
    if wire:
        obj = type(obj).decode(obj.encode())
    same(conv.from_pdu(obj), pdu, "object under test")
    text = text_of(obj, "PDU")
    check_outline(obj, "PDU")
    check_outline(obj.variableBindings, "list")
    require(str(pdu[1]) in text, "PDU text lacks the request id")
    if pdu[0] == "bulk":
        require(str(pdu[2]) in text and str(pdu[3]) in text, "PDU text lacks the bulk fields")
    else:
        require(obj.errorStatus.name in text, "PDU text lacks the error status")
        require(str(pdu[3]) in text, "PDU text lacks the error index")
    show_bindings(text, obj.variableBindings, "PDU")
    back = evaluate(obj, "PDU")
    kind, rid, a, b, vbs = pdu
    same(back.requestID, rid, "request id of the evaluated repr")
    if kind == "bulk":
        same((back.nonRepeaters, back.maxRepetitions), (a, b), "bulk fields of the evaluated repr")
    else:
        same((int(back.errorStatus), back.errorIndex), (a, b), "error fields of the evaluated repr")
    same(conv.from_vbl(back.variableBindings), vbs, "bindings of the evaluated repr")

    vbl = obj.variableBindings
    same(conv.from_vbl(evaluate(vbl, "list")), vbs, "evaluated list")
    text = text_of(vbl, "list")
    show_bindings(text, vbl, "list")

    scoped = ScopedPDU(obj, ctxeid, contextName=ctxname)
    if wire:
        scoped = ScopedPDU.decode(scoped.encode(), types={type(obj).TAG: type(obj)})
    text = text_of(scoped, "scoped PDU")
    show_bindings(text, scoped.pdu.variableBindings, "scoped PDU")
    back = evaluate(scoped, "scoped PDU")
    same((bytes(back.contextEngineID), bytes(back.contextName)), (ctxeid, ctxname), "context")
    same(conv.from_vbl(back.pdu.variableBindings), vbs, "evaluated scoped bindings")


LEVELS = {0: (False, False), 1: (True, False), 3: (True, True)}


def build(case):
    """-> the objects of a v3 message and of a community message, with what their texts show."""
    mid, size, flags, usm, engine, name, pdu, cipher, community, version = case
    mflags = MessageFlags(SecurityLevel(*LEVELS[flags & 3]), bool(flags & 4))
    header = HeaderData(mid, size, mflags, SecurityModel.USM)
    params = UsmSecurityParameters(*usm)
    scoped = ScopedPDU(conv.to_pdu(pdu), engine, contextName=name)
    packed = snmp.smi.OctetString(params.encode())
    if flags & 2:
        v3 = SNMPv3Message(header, encryptedPDU=snmp.smi.OctetString(cipher),
                           securityParameters=packed)
    else:
        v3 = SNMPv3Message(header, scopedPDU=scoped, securityParameters=packed)
    v2 = Message(ProtocolVersion(version), community, conv.to_pdu(pdu))
    return [("flags", mflags, ()), ("header", header, (mid, size)),
            ("parameters", params, usm), ("v3 message", v3, (mid, size)),
            ("community message", v2, (community,)),
            ("version", VersionOnlyMessage(ProtocolVersion(version)), None)]


def messages(case, ctx):
    """Whole messages and their parts, constructed and taken from the wire."""
    case, other, wire, at, tail = case
    pdu, flags = case[6], case[2]
    kind = type(conv.to_pdu(pdu))
    ctx.label(f"flags {flags}", "decoded" if wire else "constructed")
    ctx.nontrivial(case[:9] != other[:9])
    theirs = build(other)
    for (what, obj, shown), (_, unlike, _) in zip(build(case), theirs):
        plain = obj
        data = obj.encode()
        if wire:
            if wire == 2:
                data = subbytes(b"\x00" * at + data + tail, at, at + len(data))
            kw = {"types": {kind.TAG: kind}} if "community" in what else {}
            obj = type(obj).decode(data, **kw)
            if what == "v3 message" and not flags & 2:
                require(obj.scopedPDU is not None, "decoded message lacks its scoped PDU")
            require(obj == plain and plain == obj and not (obj != plain),
                    "{}: decoded {} is unequal to {}", what, short(obj), short(plain))
        back = evaluate(obj, what)
        same(back.encode(), plain.encode(), f"encoding of the evaluated {what}")
        if shown is not None:
            text = text_of(obj, what)
            check_outline(obj, what)
            for x in shown:
                require(repr(x) in text, "{}: text {} lacks {!r}", what, short(text), x)
            if what == "community message" or what == "v3 message" and not flags & 2:
                part = obj.pdu if what == "community message" else obj.scopedPDU.pdu
                show_bindings(text, part.variableBindings, what)
        pair_check(plain, unlike, plain.encode() == unlike.encode(), what)
        for x, y in ((plain, conv.to_pdu(pdu)), (conv.to_pdu(pdu), plain)):
            require(not (x == y) and x != y, "a {} equals a PDU", what)


def message_cases():
    level = st.sampled_from([0, 1, 3, 4, 5, 7])
    usm = st.tuples(gen.blobs(32), gen.uint31(), gen.uint31(), gen.blobs(32), gen.blobs(48),
                    gen.blobs(8))
    case = st.tuples(gen.uint31(), gen.ints(484, 2**31 - 1), level, usm, gen.blobs(32),
                     gen.blobs(40), gen.pdus(max_size=2), gen.blobs(40), gen.blobs(20),
                     st.integers(0, 1))

    def pair(a):
        def mix(t):
            b, i = t
            return a if i < 0 else b if i > 9 else a[:i] + (b[i],) + a[i + 1:]
        return st.tuples(st.just(a), st.tuples(case, 
            st.integers(-1, 12)).map(mix), st.integers(0, 2), st.integers(0, 60),
            st.binary(max_size=6))
    return case.flatmap(pair)


def pair_check(a, b, equal, what):
    require(a == a and b == b and not (a != a), "{}: not equal to itself", what)
    for x, y in ((a, b), (b, a)):
        eq, ne = x == y, x != y
        require(eq is equal and ne is not equal, "{}: == is {} and != is {} for {} and {}", what,
                eq, ne, short(x), short(y))


def eq_values(case, ctx):
    v, w = case
    ctx.label("same" if v == w else "kind" if v[0] != w[0] else "content")
    ctx.nontrivial(v != w)
    a, b = conv.to_value(v), conv.to_value(w)
    pair_check(a, b, v == w, "values")
    for other in (None, 0, b"", "x", (), v[-1] if v[0] != "oid" else list(v[1])):
        require(not (a == other) and a != other, "{} equals {}", short(a), short(other))
    n = conv.to_value(("oid", (1, 3)))
    pair_check(VarBind(n, a), VarBind(n, b), v == w, "bindings")


def eq_pdus(case, ctx):
    """Pairs that differ in at most one field."""
    pdu, field, other = case
    kind, rid, x, y, vbs = pdu
    k2, r2, x2, y2, vbs2 = other
    new = list(pdu)
    if field == "kind" and kind != "bulk":
        new[0] = k2 if k2 != "bulk" else kind
    elif field == "rid":
        new[1] = r2
    elif field == "a" and (kind == "bulk") == (k2 == "bulk"):
        new[2] = x2
    elif field == "b" and (kind == "bulk" or y2 <= len(vbs)):
        new[3] = y2
    elif field == "vbs":
        new[4] = vbs2
    elif field == "order":
        new[4] = vbs[::-1]
    elif field == "drop":
        new[4] = vbs[:-1]
    elif field == "name" and vbs and vbs2:
        new[4] = ((vbs2[0][0], vbs[0][1]),) + vbs[1:]
    elif field == "value" and vbs and vbs2:
        new[4] = vbs[:-1] + ((vbs[-1][0], vbs2[0][1]),)
    new = tuple(new)
    ctx.label(field, "same" if new == pdu else "differ")
    ctx.nontrivial(new != pdu)
    a, b = conv.to_pdu(pdu), conv.to_pdu(new)
    pair_check(a, b, new == pdu, "PDUs")
    pair_check(a.variableBindings, b.variableBindings, new[4] == pdu[4], "lists")
    pair_check(ScopedPDU(a, b"e", contextName=b"c"), ScopedPDU(b, b"e", contextName=b"c"),
               new == pdu, "scoped PDUs")
    pair_check(ScopedPDU(a, b"e", contextName=b"c"), ScopedPDU(a, b"e", contextName=b""),
               False, "scoped PDUs of different context name")
    pair_check(ScopedPDU(a, b"e", contextName=b"c"), ScopedPDU(a, b"f", contextName=b"c"),
               False, "scoped PDUs of different context engine")


def near(v):
    """A value related to v: itself, same content under another type, or other content."""
    opts = [st.just(v), gen.values()]
    if v[0] in gen.VALUE_KINDS:
        opts.append(gen.value_of(v[0]))
    if v[0] in ("int", "c32", "g32", "tt", "c64") and 0 <= v[1] < 2**31:
        opts.append(st.sampled_from(["int", "c32", "g32", "tt", "c64"]).map(lambda k: (k, v[1])))
        opts.append(st.just((v[0], v[1] ^ 1)))
    if v[0] in ("oct", "opaque"):
        opts.append(st.sampled_from([("oct", v[1]), ("opaque", v[1]), (v[0], v[1] + b"\0"),
                                     (v[0], v[1][:-1]), (v[0], v[1][::-1])]))
    if v[0] == "ip":
        opts.append(st.sampled_from([("oct", v[1]), ("opaque", v[1]), ("ip", v[1][::-1])]))
    if v[0] in ("null", "nso", "nsi", "eomv"):
        opts.append(st.sampled_from([("null",), ("nso",), ("nsi",), ("eomv",)]))
    return st.one_of(*opts)


SUBS = [
    Sub("values", lambda: st.tuples(gen.values(), st.integers(0, 2), st.integers(0, 200),
                                    st.binary(max_size=8)), values, 3000),
    Sub("pdus", lambda: st.tuples(gen.pdus(max_size=5), st.booleans(), gen.blobs(), gen.blobs()),
        pdu_repr, 2500),
    Sub("messages", message_cases, messages, 2500),
    Sub("eq_values", lambda: gen.values().flatmap(lambda v: st.tuples(st.just(v), near(v))),
        eq_values, 3000),
    Sub("eq_pdus", lambda: st.tuples(gen.pdus(), st.sampled_from(
        ["kind", "rid", "a", "b", "vbs", "order", "drop", "name", "value"]), gen.pdus()),
        eq_pdus, 4000),
]
