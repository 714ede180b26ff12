"""S05: the clock model of each remote engine is that of RFC 3414 3.2(7)."""
from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, require, same

from snmp.security.usm import UserBasedSecurityModule
from snmp.security.usm.timekeeper import TimeKeeper

from harness import conv, gen, ref, usmconf as uc, usmref as ur

RULE = ("histories of hints, authentic messages and queries over up to three engines, with boots "
        "and times chosen around the model's current estimate (the 150 s edge, older and newer "
        "boots, the maxima) and elapsed local times down to 1/8 s; run both on TimeKeeper and "
        "through processIncoming/prepareOutgoing; non-trivial = at least one rejection and one "
        "acceptance")
ASSUMPTIONS = ["timestamps are multiples of 1/8 s (exact in floating point)",
               "when elapsed time takes the estimate past 2^31-1 only the range is required, and "
               "when the local clock steps back only the range and authenticity rules are"]

ENGINES = [b"\x80engine-one", b"\x80engine-two", b""]
USER = ur.User(b"alice", "md5", b"maplesyrup", None, None)


def crowd(n, at):
    """Engines that are met only once."""
    return [b"\x80%a/%d" % (at, i) for i in range(n)]


class Direct:
    def __init__(self):
        self.tk = TimeKeeper()

    def hint(self, e, boots, time, at):
        self.tk.hint(ENGINES[e], boots, time, at)

    def message(self, e, boots, time, at):
        return self.tk.updateAndVerify(ENGINES[e], boots, time, at)

    def crowd(self, n, authentic, at):
        for e in crowd(n, at):
            if authentic:
                self.tk.updateAndVerify(e, 3, 1000, at)
            else:
                self.tk.hint(e, 3, 1000, at)

    def query(self, e, at):
        return tuple(self.tk.getEngineTime(ENGINES[e], at))


class ViaUsm:
    def __init__(self):
        self.usm = UserBasedSecurityModule()
        uc.add_user(self.usm, USER)
        for e in ENGINES:
            require(self.usm.registerRemoteEngine(e), "engine not registered")
        self.scoped = {e: ref.enc_scoped(e, b"", ("resp", 1, 0, 0, ())) for e in ENGINES}

    def crowd(self, n, authentic, at):
        for e in crowd(n // 8, at):
            require(self.usm.registerRemoteEngine(e), "engine not registered")
            scoped = ref.enc_scoped(e, b"", ("resp", 1, 0, 0, ()))
            require(self.deliver(ur.seal(1, 1, e, 3, 1000, USER, scoped) if authentic else
                    ur.seal(1, 0, e, 3, 1000, None, scoped, name=b"who"), at),
                    "message refused")

    def deliver(self, data, at):
        try:
            self.usm.processIncoming(uc.SNMPv3Message.decode(data), at)
            return True
        except Exception:
            return False

    def hint(self, e, boots, time, at):
        e = ENGINES[e]
        require(self.deliver(ur.seal(1, 0, e, boots, time, None, self.scoped[e], name=b"who"), at),
                "unauthenticated message refused")

    def message(self, e, boots, time, at):
        e = ENGINES[e]
        return self.deliver(ur.seal(1, 1, e, boots, time, USER, self.scoped[e]), at)

    def query(self, e, at):
        data = uc.outgoing(self.usm, 1, 1, True, conv.to_pdu(("get", 1, 0, 0, ())), ENGINES[e],
                           USER.name, at)
        opened = ur.Opened(data)
        return opened.boots, opened.time


def run(case, ctx):
    via, start, backwards, ops = case
    target = (ViaUsm if via else Direct)()
    clocks = [ur.Clock() for _ in ENGINES]
    at = start
    seen = set()
    ctx.label("usm" if via else "timekeeper", "steps back" if backwards else "steady")
    exact = [True] * len(ENGINES)           # false once the estimate has overflowed or stepped back
    for kind, elapsed, e, db, dt, absolute in ops:
        at = at - min(at, elapsed) if backwards and dt % 5 == 0 else at + elapsed
        e %= len(ENGINES)
        clock = clocks[e]
        if clock.known and not 0 <= at - clock.base < 2**31:
            exact[e] = False
            ctx.label("overflow")
        boots, time = clock.now(at)
        if absolute is not None:
            boots, time = absolute
        else:
            boots = max(0, min(ur.MAX31, boots + db))
            time = max(0, min(ur.MAX31, time + dt))
        if kind == "query":
            got = target.query(e, at)
            require(all(type(x) is int and 0 <= x <= ur.MAX31 for x in got),
                    "boots and time {} are not in the wire range", got)
            if exact[e]:
                same(got, clock.now(at), "boots and time at a query")
            ctx.label("query")
        elif kind == "hint":
            target.hint(e, boots, time, at)
            if not clock.auth:
                exact[e] = True
            clock.hint(boots, time, at)
            ctx.label("hint")
        elif kind == "crowd":
            target.crowd(abs(dt) % 301, db % 2 == 0, at)
            ctx.label("many other engines")
        else:
            before = (clock.auth, clock.boots)
            fresh = not clock.auth or boots > clock.boots
            got = target.message(e, boots, time, at)
            require(type(got) is bool, "verdict is {}", got)
            want = clock.update(boots, time, at)
            if fresh:
                exact[e] = True
            if exact[e]:
                same(got, want, f"verdict on an authentic message with boots {boots}, time {time}, "
                     f"after {before} estimate {clock.now(at)}")
            elif boots < before[1] or clock.boots >= ur.MAX31:
                same(got, False, "verdict on a message with old boots")
            seen.add(got)
            label = "accepted" if got else "rejected"
            age = clock.now(at)[1] - time
            ctx.label(label, "age 150" if age == 150 else "age 151" if age == 151 else label)
        for other in range(len(ENGINES)):   # nothing leaks between engines
            if exact[other] and clocks[other].known and 0 <= at - clocks[other].base < 2**31:
                same(target.query(other, at), clocks[other].now(at),
                     f"boots and time of engine {other} after a {kind}")
    ctx.nontrivial(len(seen) == 2)


def ops():
    dt = st.one_of(st.sampled_from([0, 0, 0, 1, -1, -149, -150, -151, -152, 150, 151, 10**6, 2**31,
                                    -2**31]), st.integers(-200, 200))
    absolute = st.one_of(st.none(), st.none(), st.none(), st.tuples(gen.uint31(), gen.uint31()))
    return st.tuples(st.sampled_from(["message"] * 15 + ["hint"] * 5 + ["query"] * 5 + ["crowd"]),
                     uc.elapses(), st.sampled_from([0, 0, 0, 1, 2]),
                     st.sampled_from([0, 0, 0, 0, 0, 1, -1, 2, 7, 2**31, -2**31]), dt, absolute)


def cases(via):
    return lambda: st.tuples(st.just(via), uc.instants(), st.sampled_from([False] * 5 + [True]),
                             gen.sized(ops(), 2, 12))


SUBS = [
    Sub("timekeeper", cases(False), run, 10000),
    Sub("messages", cases(True), run, 3200),
]
