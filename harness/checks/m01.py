"""M01: v1/v2c responses reach only the request that caused them."""
import gc
import weakref

from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, Violation, require, same, short

from snmp.dispatcher import Dispatcher
from snmp.message import RequestHandle
from snmp.message.v1 import SNMPv1MessageProcessor
from snmp.message.v2c import SNMPv2cMessageProcessor
from snmp.utils import NumberGenerator

from harness import conv, gen, mutate, ref

RULE = ("histories of sends, retransmissions, deliveries (right and wrong version, request id, "
        "community, PDU type, damaged bytes), completions and dropped handles on a dispatcher with "
        "both community processors; narrow id generators make ids recur; hundreds of pending "
        "requests; non-trivial = a response was matched and another one was refused while requests were pending")
ASSUMPTIONS = ["handles behave as documented: callbacks run once when a request ends"]


class Handle(RequestHandle):
    def __init__(self):
        self.callbacks = []
        self.pushed = []

    def addCallback(self, func, idNum):
        self.callbacks.append((func, idNum))

    def push(self, response):
        self.pushed.append(response)

    def finish(self):
        for func, n in self.callbacks:
            func(n)
        self.callbacks.clear()


class Channel:
    def __init__(self):
        self.sent = []

    def send(self, data):
        self.sent.append(bytes(data))


class NoMultiplexor:
    pass


COMMUNITIES = [b"public", b"private", b"", b"publi", b"Public", b"public\0",
               b"c" * 40, b"c" * 39 + b"d"]
PROCESSORS = (SNMPv1MessageProcessor, SNMPv2cMessageProcessor)


class Pending:
    def __init__(self, version, community, pdu, obj, handle, rid):
        self.version, self.community, self.pdu, self.obj = version, community, pdu, obj
        self.handle, self.rid = handle, rid
        self.active = True


def run(case, ctx):
    width, ops = case
    dispatcher = Dispatcher(NoMultiplexor())
    mps = []
    for cls in PROCESSORS:
        if width:
            cls = type("Narrow", (cls,), {
                "newGenerator": staticmethod(lambda: NumberGenerator(width))})
        mp = cls()
        mps.append(mp)
        dispatcher.addMessageProcessor(mp)
    history = []                            # every request ever made
    matched = refused = 0
    pushes = {}

    def active():
        return [p for p in history if p.active]

    for op in ops:
        kind, i, version, community, pdu, x, y = op
        community = COMMUNITIES[community]
        if kind == "send" and not (width and len(active()) >= 1 << width - 2):
            pdu = (pdu[0], 0) + pdu[2:]
            obj = conv.to_pdu(pdu)
            handle = Handle()
            channel = Channel()
            dispatcher.sendPdu(channel, PROCESSORS[version].VERSION, obj, handle, community)
            same(len(channel.sent), 1, "datagrams sent")
            got = ref.Reader().community(channel.sent[0], tuple(ref.PDU_IDENT))
            rid = got[2][1]
            same(got, (version, community, (pdu[0], rid) + pdu[2:]), "request on the wire")
            require(rid != 0, "request id 0")
            require(not any(p.rid == rid and p.version == version for p in active()),
                    "request id {} is already pending", rid)
            same(obj.requestID, rid, "request id recorded in the PDU")
            history.append(Pending(version, community, pdu, obj, handle, rid))
            del handle
            ctx.label("sent")
        elif not history:
            continue
        elif kind == "resend":
            p = history[i % len(history)]
            if p.active:
                channel = Channel()
                dispatcher.sendPdu(channel, PROCESSORS[p.version].VERSION, p.obj, p.handle,
                                   p.community)
                same(channel.sent, [ref.enc_community(p.version, p.community,
                                                      (p.pdu[0], p.rid) + p.pdu[2:])],
                     "retransmission")
                ctx.label("resent")
        elif kind in ("finish", "drop"):
            live = active()
            if not live:
                continue
            p = live[-1] if width and i % 6 else live[i % len(live)]        # some stay long
            p.active = False
            want = outcome = q = None       # no reference of ours may keep the handle alive
            if kind == "finish" or width:       # the ids of handles not closed stay taken
                p.handle.finish()
            else:                           # collected without a word
                r = weakref.ref(p.handle)
                p.handle = None
                if r() is not None:
                    gc.collect()
            ctx.label(kind)
        elif kind == "deliver":
            p = history[i % len(history)]
            version = p.version if x & 1 else version
            community = p.community if x & 2 else community
            rid = p.rid if x & 4 else y
            # most deliveries differ from the right one in at most one respect
            rkind = "resp" if x & 8 or x & 16 else pdu[0]
            body = (pdu[2], pdu[3]) if rkind != "bulk" and pdu[0] != "bulk" else (0, 0)
            response = (rkind, rid, *body, pdu[4])
            data = ref.enc_community(version, community, response)
            if x & 32 and x & 64 and x & 128:
                data = mutate_one(data, y)
                try:
                    reader = ref.Reader()
                    version, community, response = reader.community(data, ("resp",), (0, 1))
                    soft = reader.soft
                except ref.Reject:
                    version, soft = None, False
            else:
                soft = False
                if rkind != "resp":
                    version = None
            want = None
            if version is not None:
                for q in active():
                    if (q.version, q.community, q.rid) == (version, community, response[1]):
                        want = q
            before = {id(q): len(q.handle.pushed) for q in history if q.handle is not None}
            if version is not None:
                outcome = direct(mps[version], data)
                if want is None:
                    require(outcome is None, "message for no pending request was matched")
                elif outcome is not None or not soft:
                    require(outcome is not None and outcome[1] is want.handle,
                            "response was not matched to its request")
                    same(conv.from_pdu(outcome[0].pdu), response, "response")
            dispatcher.hear(None, ("192.0.2.1", 161), data)
            for q in history:
                if q.handle is None:
                    continue
                new = len(q.handle.pushed) - before[id(q)]
                if q is want and soft:
                    require(new in (0, 1), "response pushed {} times", new)
                else:
                    same(new, 1 if q is want else 0, f"responses pushed to the request with id "
                         f"{q.rid} (of {'its own' if q is want else 'another'} message)")
                if new:
                    same(conv.from_pdu(q.handle.pushed[-1].pdu), response, "pushed response")
            if want is not None:
                matched += 1
            else:
                refused += 1
            ctx.label("matched" if want else "refused")
    ctx.nontrivial(matched and refused)


def run_many(case, ctx):
    """Hundreds of requests pending at a time."""
    n, communities, gaps, stride, kinds = case
    dispatcher = Dispatcher(NoMultiplexor())
    for cls in PROCESSORS:
        dispatcher.addMessageProcessor(cls())
    history = []
    for i in range(n):
        version, community = i // 3 % 2, COMMUNITIES[communities[i % len(communities)]]
        channel, handle = Channel(), Handle()
        dispatcher.sendPdu(channel, PROCESSORS[version].VERSION, conv.to_pdu(
            ("get", 0, 0, 0, (((1, 3, i), ("null",)),))), handle, community)
        got = ref.Reader().community(channel.sent[0], tuple(ref.PDU_IDENT))
        history.append(Pending(version, community, None, None, handle, got[2][1]))
        if gaps and i % 7 in gaps:                      # some end in between
            p = history[i * stride % len(history)]
            if p.active:
                p.active = False
                if kinds[i % len(kinds)]:
                    p.handle.finish()
                else:
                    p.handle = None
    live = [p for p in history if p.active]
    same(len({(p.version, p.rid) for p in live}), len(live), "different ids of pending requests")
    # every one gets its own response, in another order
    order = sorted(range(n), key=lambda i: (i * stride % n, i))
    for i in order:
        p = history[i]
        response = ("resp", p.rid, 0, 0, (((1, 3, i), ("int", i)),))
        data = ref.enc_community(p.version, p.community, response)
        dispatcher.hear(None, ("192.0.2.1", 161), data)
        if p.active:
            same([conv.from_pdu(m.pdu) for m in p.handle.pushed], [response],
                 f"responses to request {i} of {n}")
    for p in history:
        if p.handle is not None:
            same(len(p.handle.pushed), int(p.active), "responses in the end")
    ctx.label(f"{len(live) // 100}00 pending")
    ctx.nontrivial(len(live) > 32)


def many():
    return st.tuples(gen.ints(20, 700), gen.sized(st.integers(0, 7), 1, 5),
                     st.lists(st.integers(0, 6), max_size=3).map(tuple),
                     st.sampled_from([1, 3, 11, 37, 101, 499]),
                     gen.sized(st.booleans(), 1, 4))


def direct(mp, data):
    try:
        return mp.prepareDataElements(data)
    except Exception:
        return None


def mutate_one(data, y):
    data = bytearray(data)
    data[y % len(data)] ^= 1 << (y // len(data)) % 8
    return bytes(data)


def ops(sending=3):
    pdu = gen.pdus(max_size=2)
    kinds = ["send"] * sending + ["resend", "finish", "drop"] + ["deliver"] * 4
    if sending > 3:
        kinds += ["finish", "drop"]
    right = st.sampled_from([15, 31, 15, 31, 14, 13, 11, 7, 7 | 16, 255, 239])
    return st.tuples(st.sampled_from(kinds), st.integers(0, 20), st.integers(0, 1),
                     st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7]), pdu,
                     st.one_of(right, right, st.integers(0, 255)),
                     st.one_of(gen.int32(), st.integers(-16, 16), st.integers(0, 500)))


SUBS = [Sub("histories", lambda: st.tuples(st.sampled_from([0, 0, 0, 4, 3, 3]), gen.sized(ops(), 2, 24)),
            run, 4000),
        Sub("many", many, run_many, 160),
        Sub("churn", lambda: st.tuples(st.sampled_from([3, 3, 4]), gen.sized(ops(6), 30, 60)),
            run, 1200)]
