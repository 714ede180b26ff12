"""C03: range limits are enforced on construction and on decoding."""
import re

from hypothesis import strategies as st

from harness import bootstrap, gen, ref
from harness.api import Sub, Violation, raises, require, same
from harness.conv import CLS, from_value, to_value

from snmp.asn1 import OBJECT_IDENTIFIER
from snmp.ber import ParseError
from snmp.utils import subbytes
from snmp.smi import (Counter32, Counter64, Gauge32, Integer, Integer32, IpAddress, OctetString,
                      OID, TimeTicks, Unsigned, Unsigned32)

RULE = ("candidate values on both sides of each bound, by constructor and by wire (minimal and "
        "sign-padded encodings of integers up to 20 octets); non-trivial = within 2 of a bound, or "
        "outside the range")
ASSUMPTIONS = ["IP address texts that only the platform's inet_aton shorthand accepts (e.g. '10.1') "
               "are left open: the check requires dotted quads to work and non-numeric or "
               "out-of-range texts to fail"]

SHORTHAND = re.compile(r"(?:(?:0x[0-9a-f]+|[0-9]+)\.){0,3}(?:0x[0-9a-f]+|[0-9]+)(?:\s.*)?",
                       re.I | re.S)
INTS = dict(ref.RANGE)
MORE = {"Integer": (Integer, "int"), "Unsigned": (Unsigned, "g32"), "Unsigned32": (Unsigned32, "g32")}


def wide(kind):
    lo, hi = INTS[kind]
    near = st.builds(lambda b, d: b + d, st.sampled_from([lo, hi, hi + 1, -hi - 1, 2 * hi, 2 * hi + 1,
                                                          -1, 0, 2**31, 2**32, 2**63, 2**64]),
                     st.integers(-3, 3))
    return st.one_of(near, st.sampled_from(gen.EDGE), st.integers(-2**70, 2**70),
                     st.integers(lo, hi),
                     st.builds(lambda k, s, d: s * (1 << k) + d, st.integers(64, 3000),
                               st.sampled_from([1, -1]), st.integers(-1, 1)),
                     st.builds(lambda k, n: (n << k) + (n & 0xff), st.integers(0, 120),
                               st.integers(-200, 200)))


INT_CASES = lambda: st.sampled_from(sorted(INTS)).flatmap(
    lambda k: st.tuples(st.just(k), wide(k), st.integers(0, 4)))


def integers(case, ctx):
    kind, n, pad = case
    lo, hi = INTS[kind]
    ok = lo <= n <= hi
    ctx.label(kind, "in" if ok else "out")
    ctx.nontrivial(not ok or n - lo < 3 or hi - n < 3)
    classes = [CLS[kind]] + [c for c, k in MORE.values() if k == kind]
    body = ref.int_body(n)
    fill = b"\xff" if n < 0 else b"\x00"
    wire = ref.tlv(ref.IDENT[kind], fill * pad + body)
    for cls in classes:
        if ok:
            same(cls(n).value, n, f"{cls.__name__}({n}).value")
            try:
                same(cls.decode(wire).value, n, f"{cls.__name__} from the wire")
            except ParseError:
                require(pad, "{} rejected the minimal encoding of {}", cls.__name__, n)
        else:
            raises(ValueError, lambda: cls(n), f"{cls.__name__}({n})")
            raises(ParseError, lambda: cls.decode(wire), f"{cls.__name__} decoding {n}")


def octets(case, ctx):
    n, fill, wire_kind = case
    data = bytes([fill]) * n
    ok = n <= 65535
    ctx.label("in" if ok else "out")
    ctx.nontrivial(n > 65000)
    wire = ref.tlv(0x04, data)
    if ok:
        same(OctetString(data).data, data, "OctetString data")
        same(OctetString.decode(wire).data, data, "decoded OctetString")
        # the limit applies to the string, not to the buffer that it comes from
        buffer = bytes(wire_kind * 10000) + data + b"tail"
        view = subbytes(buffer, wire_kind * 10000, wire_kind * 10000 + n)
        same(OctetString(view).data, data, "OctetString of a view")
        same(OctetString.decode(subbytes(bytes(wire_kind * 10000) + wire, wire_kind * 10000),
                                copy=False).data, data, "OctetString decoded from a large buffer")
    else:
        raises(ValueError, lambda: OctetString(data), f"OctetString of {n} bytes")
        raises(ValueError, lambda: OctetString(subbytes(data + b"xx", 0, n)), f"view of {n} bytes")
        raises(ParseError, lambda: OctetString.decode(wire), f"decoding {n} octets")
        raises(ParseError, lambda: OctetString.decode(wire, copy=False), f"decoding {n} octets")
    if wire_kind:
        body = data[:wire_kind - 1]
        ip = ref.tlv(0x40, body)
        if len(body) == 4:
            same(IpAddress.decode(ip).data, body, "decoded IpAddress")
        else:
            ctx.nontrivial()
            raises(ParseError, lambda: IpAddress.decode(ip), f"IpAddress of {len(body)} bytes")


def addresses(case, ctx):
    kind, parts = case
    if kind == "quad":
        text = ".".join(str(p) for p in parts)
        ok = len(parts) == 4 and all(0 <= p <= 255 for p in parts)
        if not ok and len(parts) != 4 and all(0 <= p for p in parts):
            return                              # inet_aton shorthand: left open
        ctx.label("quad ok" if ok else "quad bad")
        ctx.nontrivial()
        if ok:
            obj = IpAddress(text)
            same(obj.data, bytes(parts), "IpAddress data")
            same(from_value(IpAddress.decode(obj.encode()), "ip"), ("ip", bytes(parts)), "decoded")
        else:
            raises(ValueError, lambda: IpAddress(text), f"IpAddress({text!r})")
    else:
        ctx.label("text")
        if SHORTHAND.fullmatch(parts):
            return                              # left open, see ASSUMPTIONS
        ctx.nontrivial()
        raises(ValueError, lambda: IpAddress(parts), f"IpAddress({parts!r})")


@st.composite
def subid_lists(draw):
    head = [draw(st.sampled_from([0, 1, 2, 2, 1, 3, 4, 39, 40, -1])),
            draw(st.sampled_from([0, 1, 3, 8, 38, 39, 39, 40, 41, 47, 128, -1, 999]))]
    if draw(st.integers(0, 2)):
        head = [draw(st.integers(0, 2)), draw(st.integers(0, 39))]
    n = draw(st.one_of(st.integers(0, 6), st.sampled_from([125, 126, 127, 130])))
    elem = st.one_of(st.integers(0, 200), st.sampled_from(
        [2**31, 2**32 - 1, 2**32 - 2]), st.integers(0, 2**32 - 1))
    tail = draw(st.lists(elem, min_size=n, max_size=n)) if n < 50 else [draw(elem)] * n
    if draw(st.integers(0, 3)) == 0 and tail:
        i = draw(st.one_of(st.integers(0, len(tail) - 1), st.just(len(tail) - 1)))
        tail[i] = draw(st.sampled_from([2**32, 2**32 + 1, -1, 2**33, 2**64, -2**31, 2**35 - 1]))
    return tuple((head + tail)[draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1])):])


def oids(case, ctx):
    subs = tuple(case)
    base = all(s >= 0 for s in subs) and (not subs or subs[0] <= 2) \
        and (len(subs) < 2 or subs[1] <= 39)
    ok = base and len(subs) <= 128 and all(s < 2**32 for s in subs)
    ctx.label("in" if ok else "out", "long" if len(subs) > 100 else "short")
    ctx.nontrivial(not ok or len(subs) >= 127 or any(s >= 2**31 for s in subs))
    if ok:
        same(tuple(OID(*subs)), subs, "OID sub-identifiers")
        same(tuple(OID.parse(".".join(map(str, subs)))) if subs else (), subs, "parsed OID")
    else:
        raises(ValueError, lambda: OID(*subs), f"OID{subs}")
        if subs:
            raises(ValueError, lambda: OID.parse(".".join(map(str, subs))), f"parse {subs}")
    if base:
        same(tuple(OBJECT_IDENTIFIER(*subs)), subs, "OBJECT_IDENTIFIER sub-identifiers")
    else:
        raises(ValueError, lambda: OBJECT_IDENTIFIER(*subs), f"OBJECT_IDENTIFIER{subs}")
    if ok and len(subs) >= 2:
        more = 128 - len(subs)
        same(tuple(OID(*subs).extend(*([7] * more))), subs + (7,) * more, "extended to 128")
        raises(ValueError, lambda: OID(*subs).extend(*([7] * (more + 1))), "extended to 129")
    if len(subs) >= 2 and all(s >= 0 for s in subs) and subs[1] <= 39:
        wire = ref.tlv(0x06, ref.oid_body(subs))
        if ok:
            same(tuple(OID.decode(wire)), subs, "decoded OID")
        else:
            raises(ParseError, lambda: OID.decode(wire), f"decoding {subs}")


SUBS = [
    Sub("integers", INT_CASES, integers, 40000),
    Sub("octets", lambda: st.tuples(st.one_of(st.integers(0, 12), st.sampled_from(
        [65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072])), st.integers(0, 255),
        st.integers(0, 8)), octets, 3000),
    Sub("addresses", lambda: st.one_of(
        st.tuples(st.just("quad"), st.lists(st.one_of(st.integers(0, 255), st.sampled_from(
            [255, 256, 257, -1, 300, 1000])), min_size=4, max_size=4).map(tuple)),
        st.tuples(st.just("text"), st.text("abcdefg1.: -", max_size=10))), addresses, 6000),
    Sub("oids", subid_lists, oids, 16000),
]
