"""C06: object identifiers obey the algebra of integer sequences."""
from hypothesis import strategies as st

from harness import bootstrap, gen
from harness.api import Sub, Violation, raises, require, same

from snmp.asn1 import OBJECT_IDENTIFIER
from snmp.smi import OID, Integer

RULE = ("triples of object identifiers built from shared prefixes with small edits, index and slice "
        "expressions, and text made from digits, dots and junk; non-trivial = two identifiers "
        "share at least two sub-identifiers without being identical, or text that is not canonical")
ASSUMPTIONS = ["text forms that Python's int() accepts beyond plain digits (spaces, signs, "
               "underscores) and the empty text are left open"]


@st.composite
def family(draw):
    base = draw(gen.oids(max_len=8))
    out = [base]
    for _ in range(2):
        src = list(draw(st.sampled_from(out)))
        mode = draw(st.integers(0, 5))
        if mode == 0:
            src = list(draw(gen.oids(max_len=8)))
        elif mode == 1:
            src = src[:draw(st.integers(0, len(src)))]
        elif mode == 2:
            src = src + draw(st.lists(gen.subids(), min_size=1, max_size=3))
        elif mode == 3 and src:
            i = draw(st.integers(0, len(src) - 1))
            top = 2 if i == 0 else 39 if i == 1 else 2**32 - 1
            src[i] = min(top, max(0, src[i] + draw(st.sampled_from([-1, 1, 9, 10, 100]))))
        elif mode == 4 and src:
            del src[draw(st.integers(0, len(src) - 1))]
        if src and src[0] > 2:
            src[0] = 2
        if len(src) > 1 and src[1] > 39:
            src[1] = 39
        out.append(tuple(src[:128]))
    return tuple(out)


INDEX = st.one_of(st.none(), st.integers(-10, 10))


def algebra(case, ctx):
    (a, b, c), more, i, sl = case
    A, B, C = OID(*a), OID(*b), OID(*c)
    shared = 0
    while shared < min(len(a), len(b)) and a[shared] == b[shared]:
        shared += 1
    ctx.nontrivial(shared >= 2 and a != b)
    ctx.label("equal" if a == b else "prefix" if shared in (len(a), len(b)) else "diverging")
    # equality, hashing, ordering
    for (x, X) in ((a, A), (b, B), (c, C)):
        for (y, Y) in ((a, A), (b, B), (c, C)):
            same(X == Y, x == y, f"{x} == {y}")
            same(X != Y, x != y, f"{x} != {y}")
            same(X < Y, x < y, f"{x} < {y}")
            same(X > Y, x > y, f"{x} > {y}")
            same(X.startswith(Y), x[:len(y)] == y, f"{x} startswith {y}")
            if x == y:
                same(hash(X), hash(Y), "hash of equal identifiers")
    same([tuple(o) for o in sorted([A, B, C])], sorted([a, b, c]), "sorted")
    same(len({A, B, C}), len({a, b, c}), "set size")
    same({A: 1}.get(OID(*b)), 1 if a == b else None, "dict lookup")
    require(A != a and not A == Integer(1) and A != str(A), "equal to a non-identifier")
    # sequence behaviour
    same(tuple(A), a, "iteration")
    same(len(A), len(a), "len")
    same(A[sl[0]:sl[1]], a[sl[0]:sl[1]], f"slice {sl}")
    same(A[sl[0]:sl[1]:sl[2]], a[sl[0]:sl[1]:sl[2]], f"slice {sl}")
    if -len(a) <= i < len(a):
        same(A[i], a[i], f"index {i}")
    else:
        raises(IndexError, lambda: A[i], f"index {i}")
    # text
    text = ".".join(str(n) for n in a)
    same(str(A), text, "text")
    same(tuple(OID.parse(text)), a, "parse")
    require(type(OID.parse(text)) is OID, "parse returns another type")
    if a:
        same(tuple(OID.parse("." + text)), a, "parse with leading dot")
    # extension
    E = A.extend(*more)
    same(tuple(E), a + more, "extend")
    require(type(E) is OID, "extend returns {}", type(E).__name__)
    require(E.startswith(A), "an extension does not start with its base")
    same(A.startswith(E), not more, "base startswith extension")
    same(tuple(A.extend()), a, "empty extension")
    same(tuple(A), a, "extend changed its operand")
    raises(TypeError, lambda: A.__setitem__(0, 1) if hasattr(A, "__setitem__") else _set(A),
           "item assignment")
    # the unbounded base type
    X = OBJECT_IDENTIFIER(*a)
    same(tuple(X.extend(*more)), a + more, "OBJECT_IDENTIFIER.extend")
    same(str(X), text, "OBJECT_IDENTIFIER text")
    same(X < OBJECT_IDENTIFIER(*b), a < b, "OBJECT_IDENTIFIER order")
    if X == A:
        same(hash(X), hash(A), "hash of equal identifiers of both types")


def _set(x):
    x[0] = 1


TEXTS = st.one_of(
    st.text("0123456789.", max_size=14),
    st.text("0123.-+ x_a", max_size=10),
    st.lists(st.one_of(st.integers(0, 3).map(str), st.sampled_from(
        ["", " ", "-1", "40", "39", "4294967295", "4294967296", "0x1", "1e3", "a", "1,2", "²", "99",
         "3.0", "00", "01"])), min_size=1, max_size=6).map(".".join))


def text(case, ctx):
    parts = case.split(".")
    if parts[0] == "":
        parts = parts[1:]
    plain = all(p.isascii() and p.isdigit() for p in parts) and bool(parts)
    try:
        numbers = tuple(int(p) for p in parts)
    except ValueError:
        numbers = None
    ok = numbers is not None and all(0 <= n < 2**32 for n in numbers) and len(numbers) <= 128 \
        and (not numbers or numbers[0] <= 2) and (len(numbers) < 2 or numbers[1] <= 39)
    ctx.label("valid" if ok and plain else "open" if ok else "invalid")
    ctx.nontrivial(len(case) > 1)
    if ok and plain:
        same(tuple(OID.parse(case)), numbers, f"parse {case!r}")
    elif ok:
        try:
            same(tuple(OID.parse(case)), numbers, f"parse {case!r}")
        except ValueError:
            pass
    else:
        raises(ValueError, lambda: OID.parse(case), f"parse {case!r}")


def _valid_extension(case):
    a, more = case[0][0], case[1]
    e = a + more
    return (not e or e[0] <= 2) and (len(e) < 2 or e[1] <= 39) and len(e) <= 128


SUBS = [
    Sub("algebra", lambda: st.tuples(family(), st.lists(gen.subids(), max_size=3).map(tuple),
                                     st.integers(-10, 10),
                                     st.tuples(INDEX, INDEX, st.sampled_from([None, 1, 2, -1, -2]))
                                     ).filter(_valid_extension), algebra, 16000),
    Sub("text", lambda: TEXTS, text, 24000),
]
