"""C07: table index encoding and decoding are inverse."""
from hypothesis import strategies as st

from harness import bootstrap, gen
from harness.api import Sub, Violation, raises, require, same
from harness.conv import CLS, from_value, to_value

from snmp.asn1 import OBJECT_IDENTIFIER
from snmp.smi import OID, Integer, OctetString

RULE = ("base identifiers, lists of 0..4 index values of seven types, implied flag; and arbitrary "
        "identifiers (valid indices with edits) decoded with arbitrary type lists; non-trivial = at "
        "least two fields, a variable-length field, or a malformed index that has the prefix")
ASSUMPTIONS = ["reference index layout: RFC 2578 section 7.7 (variable-length strings and object "
               "identifiers carry a length unless implied; IP addresses are four sub-identifiers)"]

INTS = ("int", "g32", "c32", "tt", "c64")
TYPES = INTS[:3] + ("oct", "oct", "oid", "oid", "ip")
TOP = {"int": 2**31 - 1, "g32": 2**32 - 1, "c32": 2**32 - 1, "tt": 2**32 - 1, "c64": 2**64 - 1}


def fields():
    return st.sampled_from(INTS + ("oct", "oct", "oct", "oid", "oid", "oid", "ip", "ip")).flatmap(
        lambda k: st.tuples(st.just(k),
                            gen.ints(0, min(TOP[k], 2**32 - 1)) if k in INTS
                            else st.one_of(st.binary(max_size=6), st.binary(max_size=6), gen.binary(0, 140)) if k == "oct"
                            else st.one_of(gen.oids(max_len=5), gen.oids(max_len=30)) if k == "oid"
                            else st.binary(min_size=4, max_size=4)))


def layout(index, implied):
    out = []
    for i, (k, v) in enumerate(index):
        if k in INTS:
            out.append(v)
        elif k == "ip":
            out.extend(v)
        else:
            if not (implied and i == len(index) - 1):
                out.append(len(v))
            out.extend(v)
    return tuple(out)


def inverse(case, ctx):
    base, index, implied = case
    subs = layout(index, implied)
    prefix = OID(*base)
    values = [to_value(f) for f in index]
    ctx.label(f"{len(index)} fields", "implied" if implied else "plain")
    for k, _ in index:
        ctx.label(k)
    ctx.nontrivial(len(index) >= 2 or any(k in ("oct", "oid") for k, _ in index))
    if len(base) + len(subs) > 128:
        ctx.label("too long")
        raises(ValueError, lambda: prefix.withIndex(*values, implied=implied), "oversized index")
        return
    oid = prefix.withIndex(*values, implied=implied)
    require(type(oid) is OID, "withIndex returned {}", type(oid).__name__)
    same(tuple(oid), base + subs, "sub-identifiers")
    same(tuple(prefix), base, "withIndex changed its operand")
    types = [CLS[k] for k, _ in index]
    back = oid.decodeIndex(prefix, *types, implied=implied)
    require(isinstance(back, tuple), "decodeIndex returned {}", type(back).__name__)
    same(tuple(from_value(v, f[0]) for v, f in zip(back, index)), tuple(index), "decoded index")
    same(len(back), len(index), "number of fields")
    require(all(x == y for x, y in zip(back, values)), "decoded values are not equal")
    if len(index) == 1:
        got = oid.getIndex(prefix, types[0], implied=implied)
        same(from_value(got, index[0][0]), index[0], "getIndex")
        if index[0][0] == "int":
            same(oid.getIndex(prefix).value, index[0][1], "default getIndex")
    if not implied:
        same(tuple(prefix.withIndex(*values)), base + subs, "withIndex default")
        same(tuple(from_value(v, f[0]) for v, f in zip(oid.decodeIndex(prefix, *types), index)),
             tuple(index), "decodeIndex default")


class Bad(Exception):
    pass


def reference(subs, types, implied):
    """-> literal index or Bad."""
    out = []
    pos = 0

    def take(n):
        nonlocal pos
        if len(subs) - pos < n:
            raise Bad("incomplete")
        got = subs[pos:pos + n]
        pos += n
        return got

    for i, k in enumerate(types):
        last = implied and i == len(types) - 1
        if k in INTS:
            n, = take(1)
            if n > TOP[k]:
                raise Bad("range")
            out.append((k, n))
        elif k == "ip":
            data = take(4)
            if any(b > 255 for b in data):
                raise Bad("octet")
            out.append((k, bytes(data)))
        else:
            n = len(subs) - pos if last else take(1)[0]
            data = take(n)
            if k == "oct":
                if any(b > 255 for b in data):
                    raise Bad("octet")
                out.append((k, bytes(data)))
            else:
                if data and data[0] > 2 or len(data) > 1 and data[1] > 39:
                    raise Bad("identifier")
                out.append((k, tuple(data)))
    if pos < len(subs):
        raise Bad("leftovers")
    return tuple(out)


@st.composite
def malformed(draw):
    base = draw(gen.oids(max_len=5))
    index = draw(gen.sized(fields(), 0, 3))
    implied = draw(st.booleans())
    subs = list(layout(index, draw(st.booleans())))
    types = [k for k, _ in index]
    for _ in range(draw(st.integers(0, 2))):
        op = draw(st.integers(0, 7))
        if op == 0 and subs:
            del subs[draw(st.integers(0, len(subs) - 1))]
        elif op == 1:
            subs.insert(draw(st.integers(0, len(subs))), draw(st.one_of(gen.subids(), st.sampled_from([0, 1, 2, 4, 255, 256, 2**31, 2**32 - 1]))))
        elif op == 2 and subs:
            subs[draw(st.integers(0, len(subs) - 1))] = draw(st.sampled_from(
                [0, 1, 2, 3, 4, 39, 40, 127, 255, 256, 257, 511, 2**31 - 1, 2**31, 2**32 - 1]))
        elif op == 3 and subs:
            subs = subs[:draw(st.integers(0, len(subs) - 1))]
        elif op == 4:
            types = list(draw(gen.sized(st.sampled_from(TYPES), 0, 3)))
        elif op == 5 and types:
            types[draw(st.integers(0, len(types) - 1))] = draw(st.sampled_from(TYPES))
        elif op == 6:
            types.append(draw(st.sampled_from(TYPES)))
        elif op == 7 and types:
            types.pop()
    target = base
    if draw(st.integers(0, 5)) == 0:
        i = draw(st.integers(0, len(base) - 1))
        target = base[:i] + (base[i] ^ 1 if base[i] ^ 1 <= 2 else 0,) + base[i + 1:]
        if draw(st.booleans()):
            target = base[:max(2, i)]
            subs = subs if draw(st.booleans()) else []
    return (base, tuple((target + tuple(subs))[:128]), tuple(types), implied)


def arbitrary(case, ctx):
    base, oid, types, implied = case
    target, prefix = OID(*oid), OID(*base)
    classes = [CLS[k] for k in types]
    call = lambda: target.decodeIndex(prefix, *classes, implied=implied)
    single = lambda: target.getIndex(prefix, classes[0], implied=implied)
    if oid[:len(base)] != base:
        ctx.label("bad prefix")
        raises(OBJECT_IDENTIFIER.BadPrefix, call, "decodeIndex without the prefix")
        if len(types) == 1:
            raises(OBJECT_IDENTIFIER.BadPrefix, single, "getIndex without the prefix")
        return
    try:
        expected = reference(oid[len(base):], types, implied)
    except Bad as err:
        ctx.label(f"bad: {err}")
        ctx.nontrivial()
        raises(OBJECT_IDENTIFIER.IndexDecodeError, call, f"decodeIndex ({err})")
        if len(types) == 1:
            raises(OBJECT_IDENTIFIER.IndexDecodeError, single, f"getIndex ({err})")
        return
    ctx.label("good")
    ctx.nontrivial(len(types) >= 2)
    back = call()
    same(tuple(from_value(v, k) for v, k in zip(back, types)), expected, "decoded index")
    same(len(back), len(types), "number of fields")


SUBS = [
    Sub("inverse", lambda: st.tuples(gen.oids(max_len=8), gen.sized(fields(), 0, 4),
                                     st.booleans()), inverse, 16000),
    Sub("arbitrary", malformed, arbitrary, 24000),
]
