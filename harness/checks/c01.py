"""C01: BER framing."""
from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, Violation, raises, require, same
from harness.ref import Reader, attempt, enc_ident, enc_len

from snmp.ber import ParseError, Tag, decode, encode
from snmp.utils import subbytes

RULE = ("tag (class, constructed, number up to 5 groups), payload of generated or boundary length, "
        "surrounding bytes and view offsets are generated; non-trivial = multi-byte tag, "
        "multi-byte length, a view into a larger buffer, or a malformed input that gets past the tag")
ASSUMPTIONS = ["reference framing in harness/ref.py (written from X.690) is correct",
               "definite lengths up to 66000 octets in generated cases, and a list of lengths around "
               "2^20 and 2^24 (sub huge)"]

NUMBERS = st.one_of(st.integers(0, 40), st.sampled_from(
    [30, 31, 32, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 2**32, 2**63]),
    st.integers(0, 2**35))
TAGS = st.tuples(st.integers(0, 3), st.booleans(), NUMBERS)
LENGTHS = st.one_of(st.integers(0, 20), st.sampled_from(
    [126, 127, 128, 129, 130, 254, 255, 256, 257, 383, 384, 511, 512, 32767, 32768, 65534, 65535,
     65536, 65537, 66000]), st.integers(100, 700))


@st.composite
def payloads(draw):
    n = draw(LENGTHS)
    seed = draw(st.binary(min_size=1, max_size=6))
    return (n, seed)


def blob(spec):
    n, seed = spec
    return (seed * (n // len(seed) + 1))[:n]


def mktag(t):
    return Tag(t[2], t[1], Tag.Class(t[0]))


def sametag(tag, t, what):
    require(isinstance(tag, Tag), "{}: not a Tag", what)
    same((int(tag.cls), bool(tag.constructed), tag.number), t, what)
    require(tag == mktag(t) and not tag != mktag(t), "{}: decoded tag does not equal {}", what, t)
    require(hash(tag) == hash(mktag(t)), "{}: equal tags with different hashes", what)


def as_bytes(x, what):
    if isinstance(x, subbytes):
        return x[:]
    require(isinstance(x, bytes), "{}: {} is neither bytes nor subbytes", what, type(x).__name__)
    return x


def roundtrip(case, ctx):
    t, spec, tail, before, after = case
    payload = blob(spec)
    tag = mktag(t)
    wire = enc_ident(*t) + enc_len(len(payload)) + payload
    same(encode(tag, payload), wire, "encode")
    same(tag.encode(), enc_ident(*t), "Tag.encode")
    if t[2] >= 31:
        ctx.label("multi-byte tag")
    if len(payload) >= 128:
        ctx.label("multi-byte length")
    if before or after:
        ctx.label("view")
    if tail:
        ctx.label("leftovers")
    ctx.nontrivial(t[2] >= 31 or len(payload) >= 128 or bool(before or after))

    buffer = before + wire + tail + after
    start, stop = len(before), len(before) + len(wire) + len(tail)
    head = start + len(wire) - len(payload)
    for source in (wire + tail, subbytes(buffer, start, stop)):
        viewed = isinstance(source, subbytes)
        base = start if viewed else 0
        got, rest = Tag.decode(subbytes(source))
        sametag(got, t, "Tag.decode")
        same(rest[:], enc_len(len(payload)) + payload + tail, "Tag.decode leftovers")
        for copy in (True, False):
            for expected in (None, mktag(t)):
                result = decode(source, expected, leftovers=True, copy=copy)
                if expected is None:
                    got, body, rest = result
                    sametag(got, t, "decode")
                else:
                    body, rest = result
                same(as_bytes(body, "body"), payload, "decode body")
                same(as_bytes(rest, "leftovers"), tail, "decode leftovers")
                if copy:
                    require(isinstance(body, bytes), "copy=True body is a {}", type(body).__name__)
                else:
                    require(isinstance(body, subbytes), "copy=False body is not a view")
                    same(body.data, buffer if viewed else wire + tail, "view's underlying buffer")
                    same((body.start, body.stop),
                         (base + head - start, base + head - start + len(payload)),
                         "view's position")
                if tail:
                    raises(ParseError, lambda: decode(source, expected, copy=copy),
                           "decode with trailing bytes")
                else:
                    result = decode(source, expected, copy=copy)
                    if expected is None:
                        sametag(result[0], t, "decode")
                        same(len(result), 2, "decode result size")
                        result = result[1]
                    same(as_bytes(result, "body"), payload, "decode body (no leftovers)")


def truncation(case, ctx):
    t, spec, before, after, cuts = case
    payload = blob(spec)
    wire = enc_ident(*t) + enc_len(len(payload)) + payload
    head = len(wire) - len(payload)
    points = set(range(min(head + 2, len(wire)))) | {len(wire) - 1}
    points |= {c % len(wire) for c in cuts}
    ctx.label(f"header {head} bytes")
    ctx.nontrivial(head > 2 or bool(after))
    for cut in sorted(points):
        views = [wire[:cut], subbytes(before + wire + after, len(before), len(before) + cut)]
        for source in views:
            for expected in (None, mktag(t)):
                for leftovers in (False, True):
                    for copy in (True, False):
                        raises(ParseError, lambda: decode(source, expected, leftovers, copy),
                               f"decode of the first {cut} of {len(wire)} bytes")


def wrong_tag(case, ctx):
    t, u, payload = case
    a, b = mktag(t), mktag(u)
    same(a == b, t == u, "tag equality")
    same(a != b, t != u, "tag inequality")
    if t == u:
        require(hash(a) == hash(b), "equal tags with different hashes")
        ctx.label("same")
        same(decode(encode(a, payload), b), payload, "decode")
        return
    diff = sum(x != y for x, y in zip(t, u))
    ctx.label(f"differs in {diff}")
    ctx.nontrivial(diff == 1)
    wire = encode(a, payload)
    for leftovers in (False, True):
        for copy in (True, False):
            raises(ParseError, lambda: decode(wire, b, leftovers, copy), f"decode of {t} as {u}")


@st.composite
def tag_pairs(draw):
    t = draw(TAGS)
    u = list(t)
    which = draw(st.integers(0, 4))
    if which == 0:
        u[0] = draw(st.integers(0, 3))
    elif which == 1:
        u[1] = not u[1]
    elif which == 2:
        u[2] = draw(st.one_of(NUMBERS, st.just(t[2] ^ 1), st.just(t[2] % 32), st.just(t[2] % 128),
                              st.just(t[2] + 128)))
    elif which == 3:
        u = list(draw(TAGS))
    return (t, tuple(u), draw(st.binary(max_size=6)))


@st.composite
def raw(draw):
    """Hand-assembled TLVs, most of them near-valid."""
    first = draw(st.one_of(st.integers(0, 255), st.sampled_from([0x1f, 0x3f, 0x9f, 0xff, 0x30, 4])))
    out = bytearray([first])
    if first & 31 == 31:
        groups = draw(st.lists(st.integers(0, 127), max_size=4))
        out += bytes(128 | g for g in groups)
        if draw(st.integers(0, 9)):
            out.append(draw(st.integers(0, 127)))
    n = draw(st.integers(0, 12))
    body = draw(st.binary(min_size=n, max_size=n))
    claimed = max(0, n + draw(st.sampled_from([0, 0, 0, 0, 1, -1, 2, 100, 1 << 16, 1 << 31, 1 << 32, 1 << 64])))
    form = draw(st.integers(0, 6))
    if form <= 2 and claimed < 128:
        out.append(claimed)
    elif form <= 5:
        k = draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 127)))
        out.append(128 | k)
        out += (claimed % (1 << (8 * k))).to_bytes(k, "big")
    else:
        out.append(draw(st.sampled_from([0x80, 0xff, 0x81, 0x82, 0x84])))
    return bytes(out) + body


def arbitrary(case, ctx):
    data, before, after = case
    verdict, value = attempt(lambda r: r.tlv(data))
    ctx.label(verdict)
    ctx.nontrivial(len(data) > 1)
    for source in (data, subbytes(before + data + after, len(before), len(before) + len(data))):
        try:
            tag, body, rest = decode(source, leftovers=True)
        except ParseError:
            require(verdict != "accept", "rejected a valid encoding")
            continue
        require(verdict != "reject", "accepted an invalid encoding as {}", (tag, body, rest))
        sametag(tag, value[0], "tag")
        same(body, value[1], "body")
        same(rest[:], value[2], "leftovers")


def huge(case, ctx):
    """Lengths of three and four octets."""
    n, before = case
    payload = bytes(n - 2) + b"\x01\x02"
    wire = b"\x04" + enc_len(n) + payload
    tag = mktag((0, False, 4))
    ctx.nontrivial()
    got = encode(tag, payload)
    require(got == wire, "encode of {} octets: starts with {}", n, got[:8])
    del got
    for source, leftovers in ((wire, False), (subbytes(b"\x84" * before + wire + b"\x05\x00",
                                                       before), True)):
        body = decode(source, tag, leftovers, False)
        if leftovers:
            body, rest = body
            same(rest[:], b"\x05\x00", "leftovers")
        require(body[:] == payload, "decode of {} octets gives {}", n, len(body))
        raises(ParseError, lambda: decode(wire[:-1], tag), "decode without the last octet")


def huge_cases(tier):
    sizes = [2**k + d for k in (16, 20, 24) for d in (-1, 0, 1)] + [2**24 + 2**16 + 0x80]
    return [(n, before) for n in sizes for before in (0, 3)]


SIDES = st.binary(max_size=5)
SUBS = [
    Sub("roundtrip", lambda: st.tuples(TAGS, payloads(), SIDES, SIDES, SIDES), roundtrip, 12000),
    Sub("truncation", lambda: st.tuples(TAGS, payloads(), SIDES, SIDES,
                                        st.lists(st.integers(0, 70000), max_size=5)),
        truncation, 6000),
    Sub("huge", None, huge, 0, cases=huge_cases),
    Sub("wrong_tag", tag_pairs, wrong_tag, 12000),
    Sub("arbitrary", lambda: st.tuples(st.one_of(raw(), raw(), st.binary(max_size=12)), SIDES,
                                       SIDES), arbitrary, 24000),
]
