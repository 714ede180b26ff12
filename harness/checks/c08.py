"""C08: a zero-copy byte view equals the corresponding bytes slice."""
from hypothesis import strategies as st

from harness import bootstrap, gen
from harness.api import Sub, Violation, raises, require, same

from snmp.utils import subbytes

RULE = ("a buffer of 0..12 distinct bytes, up to four nested (start, stop) steps with omitted, "
        "negative, reversed and out-of-range values, and index/slice/split/replace expressions; "
        "exhaustive over all (start, stop) pairs for short buffers; non-trivial = the view is a "
        "proper part of the buffer, or nested at least twice")
ASSUMPTIONS = ["Python's bytes slicing is the oracle"]


def build(data, chain):
    """-> (view, equivalent bytes, absolute start, absolute stop)."""
    view = data
    lo, hi = 0, len(data)
    for kind, a, b in chain:
        s, e, _ = slice(a, b).indices(hi - lo)
        e = max(s, e)
        lo, hi = lo + s, lo + e
        if kind == 0 or not isinstance(view, subbytes):
            view = subbytes(view, a, b)
        elif kind == 1:
            view = subbytes(view, start=a, stop=b)
        else:
            view = subbytes(view, a) if b is None else subbytes(view, stop=b) if a is None \
                else subbytes(view, a, b)
    if not chain:
        view = subbytes(data)
    return view, data[lo:hi], lo, hi


def check(view, want, data, lo, hi, where):
    same(len(view), len(want), f"len of {where}")
    same(bool(view), bool(want), f"truth of {where}")
    same(list(view), list(want), f"iteration of {where}")
    same(bytes(view), want, f"bytes() of {where}")
    same(view[:], want, f"copy of {where}")
    require(isinstance(view[:], bytes), "slice of {} is {}", where, type(view[:]).__name__)
    require(view == want and not view != want, "{} does not equal its bytes", where)
    require(want == view, "bytes do not equal {}", where)
    require(not view == want + b"\0" and view != want + b"\0", "{} equals a longer string", where)
    if want:
        require(view != want[:-1], "{} equals a shorter string", where)
        other = want[:-1] + bytes([want[-1] ^ 1])
        require(view != other and not view == other, "{} equals a different string", where)
        other = bytes([want[0] ^ 0x80]) + want[1:]
        require(view != other, "{} equals a different string", where)
        same(view.dereference(), want[0], f"first byte of {where}")
    else:
        raises(IndexError, view.dereference, f"dereference of empty {where}")
    same(view == 5, False, f"{where} == 5")
    same(view == None, False, f"{where} == None")     # noqa: E711
    same(view.data, data, f"buffer of {where}")
    same(view.data[view.start:view.stop], want, f"start/stop of {where}")
    same(int.from_bytes(view, "big"), int.from_bytes(want, "big"), f"integer from {where}")
    for i in range(-len(data) - 3, len(data) + 4):
        if -len(want) <= i < len(want):
            same(view[i], want[i], f"{where}[{i}]")
        else:
            raises(IndexError, lambda: view[i], f"{where}[{i}] (length {len(want)})")


def run(case, ctx):
    data, chain, slices, splits, replacement, other = case
    view, want, lo, hi = build(data, chain)
    ctx.nontrivial(len(want) < len(data) or len(chain) > 1)
    ctx.label(f"{len(chain)} levels", "empty" if not want else "proper" if len(want) < len(data)
              else "whole")
    where = f"view {chain} of {data!r}"
    check(view, want, data, lo, hi, where)
    for a, b, c in slices:
        same(view[a:b:c], want[a:b:c], f"{where}[{a}:{b}:{c}]")
        if c is None:
            sub = subbytes(view, a, b)
            s, e, _ = slice(a, b).indices(len(want))
            check(sub, want[a:b], data, lo + s, lo + max(s, e), f"{where} then ({a}, {b})")
    for i in splits:
        left, right = view.split(i)
        require(isinstance(left, subbytes) and isinstance(right, subbytes), "split types")
        check(left, want[:i], data, 0, 0, f"{where} left of {i}")
        check(right, want[i:], data, 0, 0, f"{where} right of {i}")
    step, rest = view, want
    for _ in range(3):
        step, rest = step.advance(), rest[1:]
        check(step, rest, data, 0, 0, f"{where} advanced")
    same(view.replace(replacement), data[:lo] + replacement + data[hi:], f"{where}.replace")
    v2, w2, _, _ = build(other[0], other[1])
    same(view == v2, want == w2, f"equality of {where} and {other}")
    same(v2 == view, want == w2, f"equality of {other} and {where}")
    same(view != v2, want != w2, f"inequality of {where} and {other}")
    twin = eval(repr(view), {"subbytes": subbytes})
    check(twin, want, data, lo, hi, f"eval(repr({where}))")
    check(view, want, data, lo, hi, where)      # nothing above changed it


POS = st.one_of(st.none(), st.integers(-4, 14), st.sampled_from([-100, 100, -13, 13]))
LEVEL = st.one_of(
    st.tuples(st.integers(0, 2), POS, POS),
    st.tuples(st.integers(0, 2), st.one_of(st.none(), st.integers(0, 3)),
              st.one_of(st.none(), st.integers(-3, -1), st.integers(6, 14))))


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(0, 12), st.integers(6, 12)))
    data = bytes(range(65, 65 + n)) if draw(st.booleans()) else draw(
        st.binary(min_size=n, max_size=n))
    chain = draw(gen.sized(LEVEL, 0, 4))
    slices = draw(gen.sized(st.tuples(POS, POS, st.sampled_from([None, None, 1, 2, 3, -1, -2, -5])),
                            0, 4))
    splits = draw(gen.sized(st.integers(-15, 15), 0, 3))
    other = (data, chain) if draw(st.integers(0, 3)) == 0 else (
        draw(st.sampled_from([data, data[::-1], b"x" + data])), draw(gen.sized(LEVEL, 0, 2)))
    return (data, chain, slices, splits, draw(st.binary(max_size=5)), other)


def grid(tier):
    for n in range(0, 6):
        data = bytes(range(65, 65 + n))
        rng = [None] + list(range(-n - 2, n + 3))
        for a in rng:
            for b in rng:
                yield (data, ((0, a, b),), ((a, b, -1), (b, a, -1), (b, a, None)), (), b"zz",
                       (data, ()))
                if n >= 3:
                    yield (data, ((0, 1, -1), (0, a, b)), ((a, b, 2), (b, a, -2)), (1, -1), b"",
                           (data, ((0, a, b),)))


SUBS = [
    Sub("grid", run=run, cases=grid),
    Sub("nested", cases, run, 6000),
]
