"""G04: forged traffic cannot complete or abort an authenticated request."""
from hypothesis import strategies as st

from harness import gen, ref, sim, mgr, mutate, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import U, VERSIONS, Engine, Req

RULE = ("exchanges of v3 requests with a genuine agent while an attacker, who sees every datagram "
        "and holds no key (or only the key of another user), injects forged reports and responses "
        "for any message ever sent (discovery probes included) with generated fields, replays, "
        "mutated and downgraded copies of genuine messages, at generated points; non-trivial = "
        "a forgery with a pending message id was delivered before an authenticated request ended")
ASSUMPTIONS = ["requests at noAuthNoPriv are sent along but promised nothing",
               "an attacker who holds another user's key does not use it to set the clock of the "
               "engine, which RFC 3414 lets every user do",
               "a genuine response counts as 'in time' when it was delivered unmodified before the "
               "deadline"]

AGENT = b"\x80\x00\x1f\x88\x80genuine"
BOGUS = [b"\x80\x00\x1f\x88\x80bogus", b"\x80other-namespace", b"", b"\x80\x00\x1f\x88\x80genuinE"]
ADDRESS = ("10.3.0.1", 161)
OIDS = [mgr.UNSUPPORTED, mgr.NOTINTIME, mgr.UNKNOWNUSER, mgr.UNKNOWNENGINE, mgr.WRONGDIGEST,
        mgr.DECRYPTION, (1, 3, 6, 1, 6, 3, 11, 2, 1, 1, 0), (1, 3, 6, 1, 6, 3, 15, 1, 1, 4)]
MALLORY = ur.User(b"mallory", "sha1", b"mallory's own", "aes", b"mallory's own")


class Run:
    def __init__(self, case, ctx, world):
        (users, given, boots, uptime, hints, ops, self.fates) = case[:7]
        self.ctx, self.world, self.given = ctx, world, given
        self.users = [uc.make(u) for u in users]
        self.engine = Engine(autowait=False)
        for u in self.users + [MALLORY]:
            uc.add_user(self.engine.usm, u)
        # an engine that is in use under another namespace
        uc.add_user(self.engine.usm, ur.User(b"x", "md5", b"maplesyrup"), namespace="other")
        self.other = self.engine.Manager(("10.3.0.9", 161), namespace="other", engineID=BOGUS[1])
        self.agent = mgr.Agent(world, AGENT, self.users + [MALLORY], boots, uptime, hints)
        self.agent.answer = self.answer
        world.on_send = self.on_send
        kw = {"engineID": AGENT} if given else {}
        self.m = self.engine.Manager(ADDRESS, **kw)
        self.reqs, self.seen, self.genuine = [], [], []
        self.serial = self.sends = 0
        self.reactions = self.lures = ()
        self.lured = 0
        self.placing = None         # the request that is being made, once the engine is known

    def answer(self, o, pdu, user):
        r = self.reqs[mgr.index_of(pdu)]
        if r.silent:
            return None
        self.serial += 1
        return ("resp", pdu[1], r.behave, 1 if r.behave else 0,
                ((r.name, ("int", self.serial)),))

    def on_send(self, transport, address, data):
        o = ur.Opened(data)
        user = next((u for u in self.users if u.name == o.user), None)
        o.index = None
        if o.engine:
            o.index = mgr.index_of(o.scoped(user)[2])
        o.plain = o.scoped(user)
        o.sender = user
        self.seen.append(o)
        if self.placing is not None and o.index == self.placing:
            self.placing = None     # its next datagram may answer a forged report
            require(o.engine == AGENT, "a new request was addressed to engine {}, although {} {}",
                    o.engine, AGENT, "was configured" if self.given else
                    "had authenticated a response that was returned before")
        fate = self.fates[self.sends % len(self.fates)] if self.fates else (2,)
        if self.sends < len(self.reactions):
            for delay, *what in self.reactions[self.sends]:
                n = len(self.seen)
                self.world.after(delay * U / 2, lambda n=n, w=what: self.forge(
                    len(self.seen) - n, *w))
        self.sends += 1
        if self.lures and o.index is not None and not self.reqs[o.index].level:
            delay, *what = self.lures[self.lured % len(self.lures)]
            self.lured += 1
            n = len(self.seen)
            self.world.after(delay * U / 2, lambda: self.forge(len(self.seen) - n, *what))
        for delay in fate:
            self.world.after(delay * U / 2, lambda d=delay: self.arrive(transport, data, d))

    def arrive(self, transport, data, delay):
        reply = self.agent.process(data)
        if reply is not None:
            self.genuine.append(reply)
            self.world.after(delay * U / 2, lambda: self.deliver(reply))

    def deliver(self, data, replayed=False):
        o = ur.Opened(data)
        pdu = o.scoped(next((u for u in self.users if u.name == o.user), None))[2]
        if pdu[0] == "resp":
            r = self.reqs[mgr.index_of(pdu)]
            r.answers.append((self.world.now, pdu, replayed))
        self.world.hear(self.world.transports[-1], ADDRESS, data)

    def request(self, ui, level, timeout, period, behave, silent):
        r = Req(len(self.reqs), self.m, "get", timeout * U, period * U)
        r.user = self.users[ui % len(self.users)]
        r.level = level & r.user.level
        r.behave, r.silent, r.attacked = behave, silent, 0
        self.reqs.append(r)
        r.t0 = self.world.now
        if self.given or any(q.level and x[0] in ("ok", "error")
                             for q in self.reqs for x in q.results):
            self.placing = r.index
            if len(self.reqs) > 1:
                self.ctx.label("made when the engine was certain")
        r.handle = mgr.call(self.m, "get", ((r.name, None),), timeout=r.timeout,
                            refreshPeriod=r.period, user=r.user.name,
                            securityLevel=uc.level(r.level))
        self.placing = None
        r.t1 = self.world.now
        self.ctx.label(f"level {r.level}")

    # the attacker
    def forge(self, i, kind, engine, name, oid, auth, clock, value):
        if not self.seen:
            return
        o = self.seen[-1 - i % len(self.seen)]
        pending = [r for r in self.reqs if not r.results and r.level and r.handle is not None]
        if kind == "replay":
            if not self.genuine:
                return
            self.ctx.label("forged: replay")
            self.deliver(self.genuine[-1 - i % len(self.genuine)], True)
            return
        if kind == "flip":
            if not self.genuine:
                return
            data = bytearray(self.genuine[-1 - i % len(self.genuine)])
            data[value % len(data)] ^= 1 << clock % 8
            self.hear(bytes(data), kind)
            return
        engine = AGENT if engine is None else o.engine if engine == 9 else BOGUS[engine]
        name = {0: o.user, 1: b"", 2: b"mallory", 3: self.users[0].name}[name]
        r = pending[value % len(pending)] if pending else None
        marker = (r.name if r else mgr.ARC + (0,))
        if kind == "report":
            pdu = ("report", o.plain[2][1], 0, 0, ((OIDS[oid], ("c32", value)),))
            if oid == 7:
                pdu = pdu[:4] + ((),)
        elif kind == "response":
            pdu = ("resp", o.plain[2][1], 0, 0, ((marker, ("int", -1 - value)),))
        elif kind == "error":
            pdu = ("resp", o.plain[2][1], 1 + value % 18, 0, ((marker, ("int", 0)),))
        elif kind == "request":     # not a response at all
            pdu = (("get", "next", "set", "inform", "trap2")[value % 5], o.plain[2][1], 0, 0,
                   ((marker, ("int", -1 - value)),))
        else:       # the attacker repeats what is in clear text in a genuine message
            pdu = o.plain[2]
            pdu = ("resp",) + pdu[1:2] + (0, 0) + pdu[4:]
        if auth == 6:
            clock = 1       # any key holder may set the clock of an engine (RFC 3414 3.2.7)
        boots, time = {0: (0, 0), 1: (self.agent.boots, self.agent.time), 2: (2**31 - 1, 0),
                       3: (self.agent.boots + 1, 5), 4: (2**31 - 2, 2**31 - 1)}[clock]
        boots = min(boots, 2**31 - 1)
        scoped = ref.enc_scoped(engine, b"", pdu)
        flags = {0: 0, 1: 1, 2: 1, 3: 1, 4: 3, 5: 4, 6: 1}[auth]
        if auth in (0, 5):
            data = ur.seal(o.id, flags, engine, boots, time, None, scoped, name=name)
        elif auth == 6:             # authenticated, but by somebody else
            data = ur.seal(o.id, MALLORY.level if value % 2 else 1, engine, boots, time, MALLORY,
                           scoped, name=b"mallory")
        else:                       # claims authentication with a made up key
            algo = next((u.auth for u in self.users if u.name == name and u.auth), "md5")
            liar = ur.User(name, algo, b"guessed wrong", "aes", b"guessed wrong")
            data = ur.seal(o.id, flags, engine, boots, time, liar, scoped)
            if auth == 2:
                # no digest at all
                usm = ref.enc_usm(engine, boots, time, name, b"", b"")
                data = ref.enc_v3(ref.enc_header(o.id, 65507, 1), usm, scoped)
            elif auth == 3:
                usm = ref.enc_usm(engine, boots, time, name, bytes(ur.maclen(algo)), b"")
                data = ref.enc_v3(ref.enc_header(o.id, 65507, 1), usm, scoped)
        for q in pending:
            if o.index == q.index or not o.engine:
                q.attacked += 1
        self.hear(data, kind)

    def hear(self, data, kind):
        self.ctx.label("forged: " + kind)
        self.world.hear(self.world.transports[-1], ADDRESS, data)

    # the caller
    def wait(self, r):
        w = self.world
        got = mgr.outcome(r.handle.wait)
        what = f"request {r.index} (level {r.level})"
        if r.level:
            end = r.t0 + r.timeout
            answers = [("error", p[2]) if p[2] else ("ok", p[4]) for _, p, _ in r.answers]
            intime = [t for t, _, again in r.answers if t < end and not again]
            if got[0] in ("ok", "error"):
                require(got[:2] in [a[:2] for a in answers], "{} returned {}; the genuine agent's "
                        "responses to it were {}", what, got, answers)
            else:
                error = "Timeout" if got[0] == "timeout" else f"{type(got[1]).__name__}: {got[1]}"
                require(w.now >= end, "{} raised {} {} s before its deadline", what, error,
                        end - w.now)
                require(not intime, "{} raised {} although the genuine response was delivered "
                        "{} s before the deadline", what, error, end - (intime or [0])[0])
            if not r.results and r.attacked:
                self.ctx.nontrivial()
                self.ctx.label("attacked, " + got[0])
        r.results.append(got)


def run(case, ctx):
    ops, ticks = case[5], case[7]
    with sim.Simulation([t * U for t in ticks], (), *case[8:]) as world:
        s = Run(case, ctx, world)
        for op in ops:
            if op[0] == "req":
                s.request(*op[1:])
            elif op[0] == "sleep":
                world.sleep(op[1] * U)
            elif op[0] == "forge":
                if op[1]:
                    world.after(op[1] * U, lambda a=op[2:]: s.forge(*a))
                else:
                    s.forge(*op[2:])
            elif s.reqs:
                r = s.reqs[op[1] % len(s.reqs)]
                if op[0] == "wait":
                    s.wait(r)
        for r in s.reqs:
            if not r.results:
                s.wait(r)
        s.engine.shutdown()


def spoof(case, ctx):
    """The attacker reacts to each datagram, and mostly is faster than the genuine agent."""
    reqs, reactions = case[5], case[7]
    with sim.Simulation() as world:
        s = Run(case, ctx, world)
        s.reactions, s.lures = reactions, sum(case[8:], ())
        for i, (pause, *req) in enumerate(reqs):
            if pause < 0:
                for r in s.reqs:
                    if not r.results:
                        s.wait(r)
            elif pause:
                world.sleep(pause * U)
            s.request(*req)
        for r in s.reqs:
            s.wait(r)
        s.engine.shutdown()


def spoofs():
    reaction = st.tuples(st.integers(0, 8), forgery()).map(lambda t: t[:1] + t[1])
    req = st.tuples(st.sampled_from([0, 0, 1, 4, 16, 70, 200 * 64, -1, -1, -1]), st.integers(0, 1),
                    st.sampled_from([1, 1, 3, 3, 0]), st.sampled_from([64, 200, 200, 640]),
                    st.sampled_from([16, 64, 64]), st.sampled_from([0, 0, 0, 5]),
                    st.sampled_from([False, False, False, True]))
    fates = st.one_of(st.just(()), st.just((4,)), st.just((4,)), st.integers(1, 20).map(
        lambda d: (d,)))
    return st.tuples(
        users(), st.booleans(), st.sampled_from([0, 1, 7]), st.sampled_from([0, 100, 10**6]),
        st.booleans(), gen.sized(req, 1, 4).map(tuple), st.lists(fates, max_size=5).map(tuple),
        st.lists(st.lists(reaction, max_size=2).map(tuple), min_size=1, max_size=5).map(tuple))


def lures():
    """Requests without authentication are answered by an attacker who pretends that the agent is
    another engine, in between requests with authentication."""
    req = st.tuples(st.sampled_from([-1, -1, 0, 16]), st.just(0), st.sampled_from([0, 0, 1, 3]),
                    st.sampled_from([200, 640]), st.just(64), st.just(0), st.just(False))
    first = st.sampled_from([1, 3, 3, 0]).map(lambda level: (0, 0, level, 640, 64, 0, False))
    second = st.just((-1, 0, 0, 200, 64, 0, False))
    report = st.tuples(st.integers(0, 3), st.just("report"), st.sampled_from([0, 0, 2, 3, None]),
                       st.just(0), st.sampled_from([3, 3, 3, 1]), st.just(0), st.integers(0, 4),
                       st.integers(0, 9))
    answer = st.tuples(st.integers(0, 3), st.sampled_from(["response", "error", "copy"]),
                       st.just(9), st.just(0), st.just(0), st.just(0), st.integers(0, 4),
                       st.integers(0, 9))
    one = st.tuples(report, answer)
    return st.tuples(
        users(), st.booleans(), st.sampled_from([0, 1, 7]), st.sampled_from([0, 100, 10**6]),
        st.booleans(), st.tuples(first, second, gen.sized(req, 1, 3)).map(
            lambda t: t[:2] + tuple(t[2])),
        st.lists(st.sampled_from([(4,), (1,), (9,)]), min_size=1, max_size=2).map(tuple),
        st.just(((),)), st.one_of(one, st.tuples(one, st.lists(
            st.one_of(report, answer), max_size=3)).map(lambda t: t[0] + tuple(t[1]))))


def forgeries():
    return st.tuples(st.one_of(st.just(0), st.integers(1, 8), st.integers(1, 20)),
                     st.one_of(st.just(0), st.just(0), st.integers(0, 5)), forgery()).map(
        lambda t: ("forge",) + t[:2] + t[2])


def forgery():
    return st.tuples(st.sampled_from(
        ["report", "report", "response", "response", "error", "copy", "replay", "flip", "request"]),
        st.sampled_from([None, None, 9, 9, 0, 0, 1, 2, 3]), st.sampled_from([0, 0, 0, 1, 2, 3]),
        st.sampled_from([3, 3, 3, 1, 1, 0, 2, 4, 5, 6, 7]), st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5, 6]),
        st.integers(0, 4), st.integers(0, 300))


def ops():
    timeout = st.sampled_from([32, 64, 200, 640, 640])
    req = st.tuples(st.just("req"), st.integers(0, 1), st.sampled_from([0, 1, 3, 3]), timeout,
                    st.sampled_from([16, 64, 64]), st.sampled_from([0, 0, 0, 5]),
                    st.sampled_from([False, False, True]))
    i = st.integers(0, 5)
    op = st.one_of(req, forgeries(), forgeries(), forgeries(), forgeries(),
                   st.tuples(st.just("wait"), i),
                   st.tuples(st.just("sleep"), st.one_of(st.integers(0, 20), st.sampled_from(
                       [64, 151 * 64]))))
    return st.tuples(req, gen.sized(op, 1, 10)).map(lambda t: (t[0],) + t[1])


def fate():
    return st.one_of(st.just(()), st.integers(1, 20).map(lambda d: (d,)), st.just((4,)),
                     st.lists(st.integers(1, 100), max_size=2).map(tuple))


def users():
    return st.sampled_from([1, 2]).flatmap(lambda n: st.tuples(*[
        uc.user_spec(b"user%d" % i, 1) for i in range(n)]))


def attacks(*rest):
    return st.tuples(
        users(), st.booleans(), st.sampled_from([0, 1, 7]), st.sampled_from([0, 100, 10**6]),
        st.booleans(), ops(), st.lists(fate(), max_size=5).map(tuple), *rest)


def jitter():
    return st.one_of(st.just(()), st.just(()), st.lists(st.sampled_from([0, 0, 1, 3]), min_size=1,
                                                        max_size=4).map(tuple))


SUBS = [Sub("spoof", spoofs, spoof, 3200),
        Sub("lures", lures, spoof, 1200),
        Sub("attacks", lambda: attacks(jitter()), run, 3600),
        Sub("threads", lambda: attacks(st.just(()), gen.schedules()), run, 1600)]
