"""C02: SMI values survive encode/decode and use the canonical wire form."""
from hypothesis import strategies as st

from harness import bootstrap, gen, ref
from harness.api import Sub, Violation, raises, require, same
from harness.conv import CLS, from_value, to_value

from snmp.ber import ParseError
from snmp.utils import subbytes

RULE = ("values of all thirteen SMI types (range edges and powers of two favoured, object "
        "identifiers of 2..128 sub-identifiers, blobs at BER length boundaries); non-trivial = the "
        "content needs more than one octet; pair cases are non-trivial when the values differ")
ASSUMPTIONS = ["reference encodings in harness/ref.py (from X.690 and RFC 2578/3416) are correct"]


def roundtrip(case, ctx):
    v, before, tail = case
    obj = to_value(v)
    wire = ref.enc_value(v)
    ctx.label(v[0])
    ctx.nontrivial(len(wire) > 3)
    same(obj.encode(), wire, f"encoding of {v[0]}")
    cls = CLS[v[0]]
    buffer = before + wire + tail
    view = subbytes(buffer, len(before), len(before) + len(wire))
    for source in (wire, view):
        for copy in (True, False):
            back = cls.decode(source, copy=copy)
            same(from_value(back, v[0]), v, "decoded value")
            require(back == obj and obj == back, "decoded value is not equal to the original")
            same(back.encode(), wire, "re-encoding")
    for copy in (True, False):
        back, rest = cls.decode(subbytes(buffer, len(before)), leftovers=True, copy=copy)
        same(from_value(back, v[0]), v, "decoded value (with leftovers)")
        same(rest[:], tail, "leftovers")
    if v[0] == "oct":
        # octet strings can be made from a view, of a whole buffer or of a part
        for view in (subbytes(v[1]), subbytes(before + v[1] + tail, len(before),
                                              len(before) + len(v[1]))):
            other = cls(view)
            require(type(other.data) is bytes, "data of an {} made from a view is {}", v[0],
                    type(other.data))
            same(other.data, v[1], "data of a value made from a view")
            same(other.encode(), wire, "encoding of a value made from a view")
            require(other == obj and obj == other, "values made from a view and from bytes differ")


@st.composite
def pairs(draw):
    a = draw(gen.values())
    mode = draw(st.integers(0, 4))
    if mode == 0:
        return (a, a)
    if mode == 1:
        return (a, draw(gen.values()))
    if a[0] in ref.RANGE:
        lo, hi = ref.RANGE[a[0]]
        if mode == 2:           # same number in another type
            kind = draw(st.sampled_from(sorted(ref.RANGE)))
            lo, hi = ref.RANGE[kind]
            return (a, (kind, min(max(a[1], lo), hi)))
        delta = draw(st.sampled_from([1, -1, 256, -256, 2**8, 2**16, 2**31, -2**31, 2**32]))
        return (a, (a[0], min(max(a[1] + delta, lo), hi)))
    if a[0] == "oid":
        oid = list(a[1])
        i = draw(st.integers(0, len(oid) - 1))
        top = 2 if i == 0 else 39 if i == 1 else 2**32 - 1
        oid[i] = draw(gen.ints(0, top))
        if mode == 2:
            oid.append(draw(st.sampled_from([0, 0, 1, 128])))
        return (a, ("oid", tuple(oid[:128])))
    if a[0] in ("oct", "opaque"):
        if mode == 2:
            return (a, ({"oct": "opaque", "opaque": "oct"}[a[0]], a[1]))
        return (a, (a[0], a[1] + draw(st.sampled_from([b"\0", b"\xff", b" "]))))
    return (a, draw(gen.values()))


def distinct(case, ctx):
    a, b = case
    x, y = to_value(a), to_value(b)
    ctx.label("equal" if a == b else "same type" if a[0] == b[0] else "other type")
    ctx.nontrivial(a != b)
    same(x.encode() == y.encode(), a == b, f"encodings of {a} and {b} coincide")
    if a[0] != b[0]:
        raises(ParseError, lambda: CLS[b[0]].decode(x.encode()), f"decoding {a[0]} as {b[0]}")


def sweep(tier):
    """Every integer type around every power of two; every pair of first arcs."""
    for kind, (lo, hi) in sorted(ref.RANGE.items()):
        for n in sorted({e + d for e in gen.EDGE for d in range(-3, 4)} | set(range(-600, 600))):
            if lo <= n <= hi:
                yield ((kind, n), b"", b"")
    for first in range(3):
        for second in range(40):
            for more in ((), (0,), (127,), (128,), (2**32 - 1, 0, 16383, 16384)):
                yield (("oid", (first, second) + more), b"", b"\x05")
    for n in (0, 1, 127, 128, 255, 256, 65534, 65535):
        yield (("oct", b"a" * n), b"\x04", b"")
        yield (("opaque", b"a" * n), b"\x04", b"")


def short(case, ctx):
    """Fewer than two arcs: zeros take the place of the missing ones."""
    wire = ref.enc_value(("oid", (case + (0, 0))[:2]))
    ctx.nontrivial()
    obj = CLS["oid"](*case)
    same(tuple(obj), case, "sub-identifiers")
    same(obj.encode(), wire, f"encoding of {case}")
    same(tuple(type(obj).decode(wire)), (case + (0, 0))[:2], "decoded value")


SIDES = st.binary(max_size=4)
SUBS = [
    Sub("sweep", run=roundtrip, cases=sweep),
    Sub("short", run=short, cases=lambda tier: [(), (0,), (1,), (2,)]),
    Sub("roundtrip", lambda: st.tuples(gen.values(big=True), SIDES, SIDES), roundtrip, 24000),
    Sub("distinct", pairs, distinct, 20000),
]
