"""G05: reports surface as the right error at the right time."""
from hypothesis import strategies as st

from harness import gen, ref, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import U, Engine, Req

from snmp.manager import v3
from snmp.smi import Counter32, OID

RULE = ("histories of v3 requests at every level whose messages an RFC 3414 agent answers by a "
        "generated script: conforming processing, reports of every usmStats counter and of other "
        "or nearly equal OIDs, authenticated or not, error responses, several replies per message, "
        "with delays and losses; non-trivial = a report with a terminal OID was delivered for a "
        "pending request")
ASSUMPTIONS = ["reports repeat the user name of the message they answer, like all known agents; "
               "reports about discovery messages are attributed to every request that is pending",
               "a report counts as authentic when the agent sealed it with the user's key"]

AGENT = b"\x80\x00\x1f\x88\x80agent0"
ADDRESS = ("10.4.0.1", 161)
TYPES = {mgr.UNSUPPORTED: v3.UnsupportedSecurityLevelReport,
         mgr.UNKNOWNUSER: v3.UnknownUserNameReport,
         mgr.WRONGDIGEST: v3.WrongDigestReport,
         mgr.DECRYPTION: v3.DecryptionErrorReport}
OIDS = [mgr.UNSUPPORTED, mgr.UNKNOWNUSER, mgr.WRONGDIGEST, mgr.DECRYPTION,      # terminal
        (1, 3, 6, 1, 6, 3, 11, 2, 1, 1, 0), mgr.STATS + (7, 0), mgr.STATS + (1,),
        mgr.STATS + (5, 1), mgr.STATS + (2,), mgr.NOTINTIME + (0,), mgr.UNKNOWNENGINE[:-1] + (1,),
        mgr.ARC + (0,), (1, 3, 6, 1, 6, 3, 15, 1, 2, 1, 0), mgr.UNSUPPORTED + (0,),
        mgr.WRONGDIGEST + (1, 2), mgr.UNKNOWNUSER[:-1], mgr.UNKNOWNENGINE + (3,),
        mgr.NOTINTIME, mgr.UNKNOWNENGINE]                                      # recoverable
TERMINAL = len(OIDS) - 2


def expected_type(oid):
    return TYPES.get(oid, v3.UnrecognizedReport)


class Run:
    def __init__(self, case, ctx, world):
        (users, given, boots, hints, ops, self.script) = case[:6]
        self.ctx, self.world, self.threaded = ctx, world, len(case) > 7
        self.users = [uc.make(u) for u in users]
        self.engine = Engine(autowait=False)
        for u in self.users:
            uc.add_user(self.engine.usm, u)
        self.agent = mgr.Agent(world, AGENT, self.users, boots, 50, hints)
        self.agent.answer = self.answer
        # a user that the agent does not know, and whose name is no text
        self.stranger = ur.User(b"\xff\xfestranger")
        world.on_send = self.on_send
        self.m = self.engine.Manager(ADDRESS, **({"engineID": AGENT} if given else {}))
        self.reqs = []
        self.serial = self.received = 0

    def answer(self, o, pdu, user):
        r = self.reqs[mgr.index_of(pdu)]
        self.serial += 1
        return ("resp", pdu[1], r.behave, 1 if r.behave else 0, ((r.name, ("int", self.serial)),))

    def user_named(self, name):
        return next((u for u in self.users if u.name == name), None)

    def on_send(self, transport, address, data):
        # the agent gets everything one unit after it was sent
        self.world.after(U, lambda: self.arrive(transport, data))

    def arrive(self, transport, data):
        plan = ((("conform", 1),) if self.received >= len(self.script)
                else self.script[self.received])
        self.received += 1
        o = ur.Opened(data)
        user = self.user_named(o.user)
        pdu = o.scoped(user)[2]
        for step in plan:
            if step[0] == "conform":
                reply = self.agent.process(data)
            else:
                reply = self.report(o, pdu, user, *step[2:])
            if reply is not None:
                self.world.after(step[1] * U, lambda m=reply: self.deliver(transport, o, pdu, m))

    def report(self, o, pdu, user, oid, level, value, extra, zero):
        kind = ("c32", "int", "g32", "oct")[extra // 8 % 4]
        vbs = ((OIDS[oid], (kind, b"text" if kind == "oct" else value)),)
        if extra % 8 == 1:
            vbs += ((OIDS[value % len(OIDS)], ("c32", 1)),)
        elif extra % 8 == 2:
            vbs = ()
        level &= user.level if user else 0
        if level == 2:
            level = 0
        scoped = ref.enc_scoped(AGENT, b"", ("report", 0 if zero else pdu[1], 0, 0, vbs))
        if level:
            return self.agent.seal(o.id, level, user, scoped)
        hints = {} if self.agent.hints else {"boots": 0, "time": 0}
        return self.agent.seal(o.id, 0, None, scoped, name=o.user, **hints)

    def deliver(self, transport, asked, askedpdu, data):
        o = ur.Opened(data)
        pdu = o.scoped(self.user_named(o.user))[2]
        probe = asked.engine == b""
        if probe:
            targets = [r for r in self.reqs if not r.results]
            if len(self.reqs) > 1:
                self.ctx.label("probe of many")
        else:
            targets = [self.reqs[mgr.index_of(askedpdu)]]
        sure = len(self.reqs) == 1 or not probe
        now = self.world.now
        for r in targets:
            if pdu[0] == "resp":
                r.events.append((now, "response", ("error", pdu[2]) if pdu[2] else ("ok", pdu[4]),
                                 True))
            elif pdu[4] and pdu[4][0][0] not in (mgr.NOTINTIME, mgr.UNKNOWNENGINE):
                r.events.append((now, "final" if o.level else "maybe", pdu[4][0], sure))
                if not r.results:
                    self.ctx.nontrivial()
                    self.ctx.label("report authentic" if o.level else "report unauthenticated",
                                   expected_type(pdu[4][0][0]).__name__)
            elif not pdu[4]:
                self.ctx.label("empty report")
        self.world.hear(transport, ADDRESS, data)

    def request(self, ui, level, timeout, period, behave):
        r = Req(len(self.reqs), self.m, "get", timeout * U, period * U)
        if ui == 9:
            r.user, level = self.stranger, 0
        else:
            r.user = self.users[ui % len(self.users)]
        r.level = level & r.user.level
        if r.level == 2:
            r.level = 3
        r.behave, r.events = behave, []
        self.reqs.append(r)
        r.t0 = self.world.now
        r.handle = mgr.call(self.m, "get", ((r.name, None),), timeout=r.timeout,
                            refreshPeriod=r.period, user=r.user.name,
                            securityLevel=uc.level(r.level))
        r.t1 = self.world.now
        self.ctx.label(f"level {r.level}")

    def wait(self, r):
        w = self.world
        begin, drift = w.now, w.drift
        got = mgr.outcome(r.handle.wait)
        what = f"request {r.index} (level {r.level}, user {r.user.name!r})"
        history = [(t - r.t0, k, short(x, 120)) for t, k, x, _ in r.events]
        if r.results:
            was = r.results[0]
            if self.threaded and any(e[0] >= r.t0 + r.timeout for e in r.events):
                return                  # still being processed when the first wait() gave up
            require(got[0] == was[0] and (got[0] != "raised" or got[1] is was[1]
                    or type(got[1]) is type(was[1])), "{}: repeated wait gave {} after {}",
                    what, got, was)
            return
        r.results.append(got)
        self.ctx.label("outcome: " + got[0])
        end = r.t0 + r.timeout
        finals = [e for e in r.events if e[1] != "maybe"]
        certain = [e for e in finals if e[0] < end]
        if certain:
            when, kind, detail, _ = certain[0]
            if kind == "response":
                require(got[:2] == detail, "{} gave {} instead of its response {}; history {}",
                        what, got, detail, history)
            else:
                self.exception(what, got, [detail], history)
            require(w.now <= max(begin, when) + (w.drift - drift), "{} ended {} s after the "
                    "{} that decides it; history {}", what, w.now - max(begin, when), kind, history)
            return
        require(w.now >= end, "{} gave {} {} s before its deadline; history {}", what, got,
                end - w.now, history)
        require(w.now <= max(begin, r.t1 + r.timeout) + (w.drift - drift), "{} blocked until {} s "
                "after its deadline", what, w.now - end)
        if got[0] in ("ok", "error"):
            require(("response", got[:2]) in [e[1:3] for e in finals], "{} gave {}; history {}",
                    what, got, history)
        elif got[0] == "timeout":
            must = [e for e in r.events if e[0] < end and e[3]]
            require(not must, "{} raised a mere Timeout although reports had been delivered; "
                    "history {}", what, history)
        else:
            self.exception(what, got, [e[2] for e in r.events if e[1] != "response"], history)

    def exception(self, what, got, varbinds, history):
        require(got[0] == "raised", "{} gave {} instead of raising; history {}", what, got, history)
        err = got[1]
        require(isinstance(err, v3.UnhandledReport), "{} raised {}: {}; history {}", what,
                type(err).__name__, err, history)
        kinds = {expected_type(oid) for oid, _ in varbinds}
        require(type(err) in kinds, "{} raised {}; history {}", what, type(err).__name__, history)
        from harness import conv
        here = (tuple(err.name), conv.from_value(err.value))
        require(here in varbinds, "{} raised {} for {}; history {}", what, type(err).__name__, here,
                history)
        str(err)


def run(case, ctx):
    ops, ticks = case[4], case[6]
    with sim.Simulation([t * U for t in ticks], (), *case[7:]) as world:
        s = Run(case, ctx, world)
        for op in ops:
            if op[0] == "req":
                s.request(*op[1:])
            elif op[0] == "sleep":
                world.sleep(op[1] * U)
            elif s.reqs:
                s.wait(s.reqs[op[1] % len(s.reqs)])
        for r in s.reqs:
            s.wait(r)
        s.engine.shutdown()


def replies():
    delay = st.one_of(st.just(1), st.integers(1, 8), st.integers(1, 8), st.integers(1, 100))
    rep = st.tuples(st.just("report"), delay, st.one_of(
        st.integers(0, len(OIDS) - 1), st.integers(0, 3), st.integers(0, 3)),
        st.sampled_from([0, 0, 1, 3, 3]), st.integers(0, 2**31 - 1),
        st.sampled_from([0] * 12 + list(range(32))), st.booleans())
    ok = st.tuples(st.just("conform"), delay)
    return st.one_of(st.just((("conform", 1),)), st.just((("conform", 1),)), st.just(()),
                     rep.map(lambda x: (x,)), rep.map(lambda x: (x,)),
                     st.lists(st.one_of(rep, ok), min_size=2, max_size=3).map(tuple))


def ops():
    timeout = st.sampled_from([20, 64, 64, 200, 640])
    req = st.tuples(st.just("req"), st.sampled_from([0, 0, 0, 1, 1, 9]),
                    st.sampled_from([0, 1, 3, 3]), timeout,
                    st.sampled_from([16, 64, 640]), st.sampled_from([0, 0, 0, 5]))
    op = st.one_of(req, st.tuples(st.just("wait"), st.integers(0, 4)),
                   st.tuples(st.just("sleep"), st.one_of(st.integers(0, 20), st.just(64))))
    return st.tuples(req, gen.sized(op, 0, 6)).map(lambda t: (t[0],) + t[1])


def users():
    return st.sampled_from([1, 2]).flatmap(lambda n: st.tuples(*[
        uc.user_spec(b"user%d" % i) for i in range(n)]))


def scripts(*rest):
    return st.tuples(users(), st.booleans(), st.sampled_from([0, 1, 7]), st.booleans(), ops(),
                     st.lists(replies(), max_size=8).map(tuple), *rest)


def jitter():
    return st.one_of(st.just(()), st.just(()), st.lists(st.sampled_from([0, 0, 1, 3]), min_size=1,
                                                        max_size=4).map(tuple))


SUBS = [Sub("scripts", lambda: scripts(jitter()), run, 7000),
        Sub("threads", lambda: scripts(st.just(()), gen.schedules()), run, 3200)]
