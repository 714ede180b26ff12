"""Shared hypothesis strategies; all produce plain literals."""
from hypothesis import strategies as st

EDGE = sorted({s * (2**k) + d for k in (0, 1, 4, 7, 8, 14, 15, 16, 21, 23, 24, 28, 31, 32, 39, 40,
                                        47, 48, 55, 56, 63, 64) for d in (-2, -1, 0, 1, 2)
               for s in (1, -1)})


def ints(lo, hi):
    edges = [e for e in EDGE + [lo, lo + 1, hi - 1, hi] if lo <= e <= hi]
    return st.one_of(st.sampled_from(sorted(set(edges))), st.integers(lo, hi),
                     st.integers(max(lo, min(-300, hi)), min(hi, max(300, lo + 300))))


def int32():
    return ints(-2**31, 2**31 - 1)


def uint31():
    return ints(0, 2**31 - 1)


def subids():
    return ints(0, 2**32 - 1)


@st.composite
def oids(draw, min_len=2, max_len=12):
    """Valid object identifiers of at least two sub-identifiers."""
    first = draw(st.integers(0, 2))
    second = draw(st.integers(0, 39))
    n = draw(st.integers(max(0, min_len - 2), max_len - 2))
    if draw(st.integers(0, 60)) == 0:
        n = draw(st.sampled_from([125, 126]))
    small = draw(st.booleans())
    elem = st.integers(0, 300) if small else subids()
    return (first, second) + tuple(draw(st.lists(elem, min_size=n, max_size=n)))


def sized(elem, lo, hi):
    """Tuples with uniformly distributed length (st.lists favours short ones)."""
    return st.integers(lo, hi).flatmap(lambda n: st.tuples(*[elem] * n))


def binary(lo, hi):
    """Octets with uniformly distributed length (st.binary favours about five)."""
    return st.integers(lo, hi).flatmap(lambda n: st.binary(min_size=n, max_size=n))


def blobs(max_size=40):
    return st.one_of(st.binary(max_size=max_size), binary(0, max_size), st.sampled_from(
        [b"", b"\x00", b"\xff", b"\x00" * 8, b"public", b"\x30\x00"]))


def long_blobs():
    """Lengths around each BER length boundary."""
    return st.tuples(st.sampled_from([0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512,
                                      65534, 65535]), st.integers(0, 255)).map(
        lambda t: bytes([t[1]]) * t[0])


def value_of(kind, big=False):
    data = st.one_of(blobs(), long_blobs()) if big else blobs()
    return {
        "int": lambda: int32(), "oct": lambda: data, "oid": lambda: oids(),
        "ip": lambda: st.binary(min_size=4, max_size=4),
        "c32": lambda: ints(0, 2**32 - 1), "g32": lambda: ints(0, 2**32 - 1),
        "tt": lambda: ints(0, 2**32 - 1), "opaque": lambda: data,
        "c64": lambda: ints(0, 2**64 - 1),
    }[kind]().map(lambda v: (kind, v))


VALUE_KINDS = ("int", "oct", "oid", "ip", "c32", "g32", "tt", "opaque", "c64")


def values(big=False):
    return st.one_of(*[value_of(k, big) for k in VALUE_KINDS], st.just(("null",)),
                     st.sampled_from([("nso",), ("nsi",), ("eomv",)]))


def varbinds(**kw):
    return st.tuples(oids(), values(**kw))


def vbls(max_size=4, **kw):
    return sized(varbinds(**kw), 0, max_size)


PLAIN = ("get", "next", "resp", "set", "inform", "trap2", "report")


@st.composite
def pdus(draw, kinds=PLAIN + ("bulk",), max_size=4, rid=None):
    kind = draw(st.sampled_from(kinds))
    requestID = draw(int32() if rid is None else rid)
    vbs = draw(vbls(max_size=max_size))
    if kind == "bulk":
        return (kind, requestID, draw(uint31()), draw(uint31()), vbs)
    status = draw(st.integers(0, 18))
    index = draw(st.integers(0, len(vbs)))
    return (kind, requestID, status, index, vbs)


def pick(*strategies):
    """Each strategy with the same probability (one_of flattens nested alternatives)."""
    return st.integers(0, len(strategies) - 1).flatmap(lambda i: strategies[i])


def schedules(max_size=6):
    """Preemptions for threads.ThreadedWorld."""
    choice = st.integers(0, 3)
    one = st.one_of(
        st.tuples(st.just("spot"), st.integers(0, 96), choice),
        st.tuples(st.just("line"), st.integers(0, 400), choice),
        st.tuples(st.just("sync"), st.integers(0, 60), choice),
        st.tuples(st.just("sync"), st.integers(0, 4), choice),
        st.tuples(st.just("line"), st.integers(0, 8), choice))
    each = st.tuples(st.just("each"), st.integers(0, 12), choice)
    return st.one_of(sized(one, 1, max_size), sized(one, 1, max_size),
                     st.tuples(sized(one, 0, 2), each).map(lambda t: t[0] + t[1:]))
