"""C09: identifier generation never repeats within a full cycle."""
import random

from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, Violation, require, same

from snmp.exception import SNMPException
from snmp.message.v1 import SNMPv1MessageProcessor
from snmp.message.v2c import SNMPv2cMessageProcessor
from snmp.message.v3 import SNMPv3MessageProcessor
from snmp.pdu import GetRequestPDU, PDU
from snmp.security import SecurityModel
from snmp.utils import NumberGenerator

from harness import ref

RULE = ("(width, signedness, random seed, run length) generated; widths 1..10 run for two whole "
        "cycles, larger ones for a bounded run; message processors issue hundreds of ids while "
        "earlier requests stay outstanding or are dropped; non-trivial = a complete cycle, or a run "
        "of at least 100 ids")
ASSUMPTIONS = ["for widths above 12, runs are bounded (thousands of draws), not whole cycles"]


def bounds(n, signed):
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)


def cycle(case, ctx):
    n, signed, seed, default = case
    random.seed(seed)
    gen = NumberGenerator(n) if default and signed else NumberGenerator(n, signed)
    ctx.label(f"n={n}", "signed" if signed else "unsigned")
    ctx.nontrivial()
    require(iter(gen) is gen, "the generator is not its own iterator")
    lo, hi = bounds(n, signed)
    first = [next(gen) for _ in range(1 << n)]
    same(sorted(first), list(range(lo, hi + 1)), f"one cycle of {n} bits")
    same(first[-1], 0, "last number of the cycle")
    second = [next(gen) for _ in range(1 << n)]
    same(second, first, "second cycle")


def long_run(case, ctx):
    n, signed, seed, length = case
    random.seed(seed)
    gen = NumberGenerator(n, signed=signed)
    length = min(length, (1 << n) - 1)
    ctx.label(f"n={n}")
    ctx.nontrivial(length >= 100)
    lo, hi = bounds(n, signed)
    seen = set()
    for i in range(length):
        x = next(gen)
        require(type(x) is int and lo <= x <= hi, "{} is outside {} bits", x, n)
        require(x != 0, "zero after {} of 2^{} numbers", i, n)
        require(x not in seen, "{} repeated after {} numbers", x, i)
        seen.add(x)


class Handle:
    def __init__(self):
        self.callbacks = []

    def addCallback(self, func, idNum):
        self.callbacks.append((func, idNum))

    def push(self, response):
        pass

    def drop(self):
        for func, n in self.callbacks:
            func(n)


class FakeSecurity:
    MODEL = SecurityModel.USM

    def prepareOutgoing(self, message, engineID, securityName):
        return message


def send(mp, version, pdu, handle):
    if version == 2:
        return mp.prepareOutgoingMessage(pdu, handle, b"engine", b"user").header.id
    data = mp.prepareOutgoingMessage(pdu, handle, b"public")
    number = ref.Reader().community(data, ("get",))[2][1]
    same(pdu.requestID, number, "request id in the PDU")
    return number


def processors(case, ctx):
    version, seed, width, count, period = case
    rng = random.Random(seed)
    ops = [rng.randrange(period * 20) for _ in range(count)]
    random.seed(seed)
    cls = (SNMPv1MessageProcessor, SNMPv2cMessageProcessor, SNMPv3MessageProcessor)[version]
    signed = version < 2
    if width:
        # a narrow generator makes ids wrap while requests are outstanding
        cls = type("Narrow", (cls,), {
            "newGenerator": staticmethod(lambda: NumberGenerator(width, signed=signed))})
    if version == 2:
        mp = cls(1472)
        mp.addSecurityModuleIfNeeded(FakeSecurity())
    else:
        mp = cls()
    live = {}
    issued = 0
    order = []
    lo, hi = bounds(32, True) if signed else bounds(31, False)
    for op in ops:
        if op % period == 0 and order:      # period 1: every request is dropped in turn
            order.pop((op // period) % len(order)).drop()
        for h in [h for h in live.values() if h not in order]:
            for k in [k for k, v in live.items() if v is h]:
                del live[k]
        if width and len(live) >= (1 << width) // 4:
            order.pop(0).drop()
            for k in [k for k, v in live.items() if v not in order]:
                del live[k]
        handle = Handle()
        pdu = GetRequestPDU("1.3.6")
        try:
            number = send(mp, version, pdu, handle)
        except SNMPException:
            # a processor may give up when its generator keeps yielding ids that are in use
            require(width, "no id could be allocated with {} outstanding", len(live))
            ctx.label("refused")
            continue
        require(lo <= number <= hi, "id {} is out of range", number)
        require(number != 0, "id is zero after {} ids", issued)
        require(number not in live, "id {} given to two outstanding requests", number)
        live[number] = handle
        order.append(handle)
        issued += 1
    ctx.label(f"v{version + 1}", "narrow" if width else "full")
    ctx.nontrivial(issued >= 100)


SEED = st.integers(0, 2**32)
SUBS = [
    Sub("cycle", run=cycle, cases=lambda tier: (
        (n, signed, seed * 7 + n, bool(seed % 2)) for n in range(1, 9 if tier == "quick" else 14)
        for signed in (True, False) for seed in range(40 if n < 8 else 12))),
    Sub("wide", lambda: st.tuples(st.integers(9, 12), st.booleans(), SEED, st.booleans()), cycle, 64),
    Sub("long", lambda: st.tuples(st.sampled_from([13, 16, 24, 31, 31, 32, 32, 48, 64]), st.booleans(),
                                  SEED, st.sampled_from([100, 1000, 8000])), long_run, 400),
    Sub("processors", lambda: st.tuples(
        st.integers(0, 2), SEED, st.sampled_from([0, 0, 4, 5, 6, 8]),
        st.integers(20, 400), st.sampled_from([1, 2, 3, 7, 1000])), processors, 800),
]
