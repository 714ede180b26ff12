"""G02: requests retransmit on schedule and always end by the deadline."""
from hypothesis import strategies as st

from harness import gen, ref, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import U, VERSIONS, Engine, Req

RULE = ("histories of concurrent requests on v1, v2c and v3 managers (agent silent, or answering "
        "some requests after a generated delay), with generated timeouts, refresh periods, sleeps, "
        "clock ticks between instructions and oversleeping waits; every transmission is checked "
        "against the schedule; non-trivial = a request was waited on across at least two of its "
        "refresh times, or several requests with different periods were pending during a wait")
ASSUMPTIONS = ["a period is counted from the latest transmission that was not a timed one "
               "(the initial one, or one triggered by an incoming message)",
               "tolerances equal the generated clock ticks and oversleeps; most cases have none"]

USER = ur.User(b"user", "md5", b"maplesyrup", "aes", b"maplesyrup")
ENGINE = b"\x80silent-agent"
ADDRESS = "10.1.0.%d"


class Managed:
    def __init__(self, m, mode, agent, address):
        self.m, self.mode, self.agent, self.address = m, mode, agent, address


class Run:
    def __init__(self, case, ctx, world):
        self.ctx, self.world = ctx, world
        self.engine = Engine(autowait=False)
        uc.add_user(self.engine.usm, USER)
        self.reqs, self.managers = [], []
        self.warming = False
        # the clock may move by this much between a decision and its effect
        self.slack = world.max_tick * 8 + world.max_sleep
        world.on_send = self.on_send
        for i, mode in enumerate(case[0]):
            address, agent, kw = ADDRESS % i, None, {}
            if mode in (0, 1):
                kw = {"version": VERSIONS[mode], "community": b"c"}
            else:
                agent = mgr.Agent(world, ENGINE + bytes([i]), [USER])
                agent.answer = lambda o, pdu, user: ("resp", pdu[1], 0, 0, pdu[4])
                if mode == 3:
                    kw = {"engineID": agent.engine}
            m = Managed(self.engine.Manager(address, **kw), mode, agent, address)
            self.managers.append(m)
            if mode == 2:
                self.warming = True
                h = mgr.call(m.m, "get", ((mgr.ARC, None),), timeout=100.0)
                got = mgr.outcome(h.wait)
                require(got[0] == "ok", "first request on a v3 manager: {}", got)
                del h
                self.warming = False

    def on_send(self, transport, address, data):
        w = self.world
        m = next(x for x in self.managers_now(address) if x.address == address[0])
        if self.warming:
            reply = m.agent.process(data)
            w.after(U, lambda: w.hear(transport, address, reply))
            return
        content = data
        if m.mode in (0, 1):
            pdu = mgr.parse_community(data)[2]
            reply = lambda: ref.enc_community(m.mode, b"c", ("resp", pdu[1], 0, 0, pdu[4]))
        else:
            o = ur.Opened(data)
            pdu = o.scoped(USER)[2]
            reply = lambda: m.agent.process(data)
            content = (o.level, o.user, o.engine, pdu)
        index = mgr.index_of(pdu)
        if index is None:               # a discovery probe: the manager has only one request
            index = next(r.index for r in self.reqs if r.manager is m)
            content = "probe"
        r = self.reqs[index]
        r.sent.append((w.now, content, w.delivering))
        if r.behave is not None and len(r.sent) > r.behave[0]:
            w.after(r.behave[1] * U, lambda: self.deliver(r, transport, address, reply()))

    def managers_now(self, address):
        if self.warming and not any(m.address == address[0] for m in self.managers):
            raise sim.HarnessError("no manager")
        return self.managers

    def deliver(self, r, transport, address, data):
        if data is None:
            return
        pdu = (mgr.parse_community(data)[2] if r.manager.mode in (0, 1)
               else ur.Opened(data).scoped(USER)[2])
        if pdu[0] == "resp" and r.open and r.answered is None:
            r.answered = self.world.now
        self.world.hear(transport, address, data)

    def request(self, which, timeout, period, behave):
        m = self.managers[which % len(self.managers)]
        if m.mode == 4 and any(r.manager is m for r in self.reqs):
            return
        r = Req(len(self.reqs), m, "get", timeout * U, period * U)
        r.behave, r.answered = behave, None
        self.reqs.append(r)
        r.t0 = self.world.now
        r.handle = mgr.call(m.m, "get", ((r.name, None),), timeout=r.timeout,
                            refreshPeriod=r.period)
        r.t1 = self.world.now
        self.ctx.label(f"mode {m.mode}")
        if m.mode != 3:
            require(len(r.sent) >= 1, "request {} was not transmitted at once", r.index)

    def wait(self, r):
        w = self.world
        start, drift, before = w.now, w.drift, len(r.sent)
        got = mgr.outcome(r.handle.wait)
        drift = w.drift - drift
        soonest, latest = r.t0 + r.timeout, r.t1 + r.timeout
        what = f"request {r.index}"
        if got[0] == "timeout":
            require(w.now >= soonest, "{} timed out {} s early", what, soonest - w.now)
            require(w.now <= max(start, latest) + drift, "{} timed out {} s after its deadline",
                    what, w.now - latest)
            require(r.answered is None or r.answered >= soonest, "{} timed out after its response",
                    what)
        elif got[0] == "ok":
            require(r.answered is not None, "{} succeeded unanswered", what)
            require(w.now <= max(start, r.answered) + drift, "{} returned {} s after its response",
                    what, w.now - r.answered)
        else:
            require(False, "{}: {}", what, got)
        first = r.open
        r.open = False
        self.ctx.label(got[0])
        if not first:
            return
        if not r.sent:
            self.ctx.label("never sent")
            return
        stop = min(w.now, soonest) - self.slack
        if r.answered is not None:
            stop = min(stop, r.answered)
        crossed = self.no_gaps(r, start, stop, what)
        others = [q for q in self.reqs if q.open and q.manager is r.manager]
        if crossed >= 2:
            self.ctx.label("crossed several refresh times")
        if crossed and any(q.period != r.period for q in others):
            self.ctx.label("others pending with another period")
        self.ctx.nontrivial(crossed >= 2 or crossed and others)

    def no_gaps(self, r, start, stop, what):
        """While waited on in (start, stop), every refresh time had its transmission."""
        if 2 * self.slack >= r.period:
            return 0
        sends = [s for s in r.sent if s[0] <= start] or r.sent[:1]
        base = [s for i, s in enumerate(r.sent[:len(sends)]) if i == 0 or s[2]][-1][0]
        i = len(sends) - 1
        crossed = 0
        while True:
            last = r.sent[i][0]
            due = base + ((last - base + self.slack) // r.period + 1) * r.period
            due = max(due, start)
            if due >= stop:
                return crossed
            i += 1
            require(i < len(r.sent) and r.sent[i][0] <= due + self.slack,
                    "{} (period {} s) was waited on from {} to {} s after its creation, but there "
                    "was no transmission at {}; transmissions: {}", what, r.period, start - r.t0,
                    stop - r.t0, due - r.t0, [x[0] - r.t0 for x in r.sent])
            if r.sent[i][2]:
                base = r.sent[i][0]
            else:
                crossed += 1

    def check_all(self):
        """For all requests, waited on or not: same content, not too often, not too late."""
        for r in self.reqs:
            what = f"request {r.index}"
            times = [x[0] - r.t0 for x in r.sent]
            contents = []
            for _, content, _ in r.sent:
                if content != "probe" and content not in contents:
                    contents.append(content)
            require(len(contents) <= 1, "{} was retransmitted with other content: {}", what,
                    contents)
            base, slots = None, {}
            for i, (t, content, inside) in enumerate(r.sent):
                require(r.answered is None or t <= r.answered + self.slack, "{} was transmitted at "
                        "{} although answered at {}", what, times[i], (r.answered or 0) - r.t0)
                require(t < r.t1 + r.timeout + self.slack or (i == 0 and t <= r.t1),
                        "{} with timeout {} was transmitted at {}", what, r.timeout, times[i])
                if base is None or inside:
                    base, slots = t, {0: 1}
                elif not self.slack:
                    slot = int((t - base) // r.period)
                    slots[slot] = slots.get(slot, 0) + 1
                    require(slots[slot] == 1, "{}: several transmissions within one refresh period "
                            "of {} s: {}", what, r.period, times)
                else:
                    near = [x for x in r.sent[:i] if base <= x[0] > t - r.period + self.slack]
                    require(len(near) <= 2, "{}: burst of transmissions with period {}: {}", what,
                            r.period, times)


def run(case, ctx):
    versions, ops, ticks, oversleeps, *schedule = case
    with sim.Simulation([t * U for t in ticks], [t * U for t in oversleeps], *schedule) as world:
        world.hurry = False
        s = Run(case, ctx, world)
        for op in ops:
            if op[0] == "req":
                s.request(*op[1:])
            elif op[0] == "sleep":
                world.sleep(op[1] * U)
            elif op[0] == "reboot":
                m = s.managers[op[1] % len(s.managers)]
                if m.agent:             # the next authenticated request is reported and resent
                    m.agent.boots += 1
                    ctx.label("reboot")
            elif s.reqs:
                r = s.reqs[op[1] % len(s.reqs)]
                if op[0] == "wait" and r.handle is not None:
                    s.wait(r)
                elif op[0] == "drop":
                    r.handle = None
                    r.open = False
        for r in s.reqs:
            if r.open:
                s.wait(r)
        s.check_all()
        s.engine.shutdown()


def ops(least=1, most=7):
    period = st.sampled_from([2, 16, 31, 32, 64, 64, 100, 256])
    timeout = st.sampled_from([0, 16, 64, 96, 128, 129, 200, 320, 640])
    behave = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.one_of(
        st.integers(1, 64), st.sampled_from([64, 128, 200]))))
    req = st.tuples(st.just("req"), st.integers(0, 3), timeout, period, behave)
    i = st.integers(0, 7)
    sleep = st.one_of(st.integers(0, 40), st.sampled_from([64, 128, 100, 200, 256]))
    op = st.one_of(req, req, req, st.tuples(st.just("wait"), i), st.tuples(st.just("wait"), i),
                   st.tuples(st.just("sleep"), sleep), st.tuples(st.just("drop"), i),
                   st.tuples(st.just("reboot"), i))
    return st.tuples(req, gen.sized(op, least, most)).map(lambda t: (t[0],) + t[1])


def jitter():
    return st.one_of(st.just(()), st.just(()), st.just(()),
                     st.lists(st.sampled_from([0, 0, 1, 3, 17]), min_size=1, max_size=5).map(tuple))


def versions():
    return st.lists(st.sampled_from([0, 1, 1, 2, 2, 3, 4]), min_size=1, max_size=2).map(tuple)


def many():
    """Dozens of requests of one manager under way at a time."""
    timeout = st.sampled_from([200, 320, 640])
    period = st.sampled_from([64, 64, 100, 256])
    behave = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 2), st.integers(1, 100)))
    req = st.tuples(st.just("req"), st.just(0), timeout, period, behave)

    def build(t):
        mode, n, reqs, waits, sleep = t
        ops = tuple(reqs[i % len(reqs)] for i in range(n))
        ops = ops[:n // 2] + (("sleep", sleep),) + ops[n // 2:]
        return (mode,), ops + tuple(("wait", w) for w in waits), (), ()

    return st.tuples(st.sampled_from([0, 1, 2, 3]), gen.ints(10, 90), gen.sized(req, 1, 5),
                     st.lists(st.integers(0, 89), max_size=3).map(tuple),
                     st.sampled_from([0, 0, 1, 30])).map(build)


def long():
    """The same histories with seconds turned into minutes or hours.  (Only v1 and v2c agents
    answer: what a v3 agent says is stale after 150 s.)"""
    def build(t):
        modes, history, ticks, factor = t
        silent = any(m > 1 for m in modes)
        scaled = []
        for op in history:
            if op[0] == "req":
                _, which, timeout, period, behave = op
                behave = None if behave is None or silent else (behave[0], behave[1] * factor)
                op = ("req", which, timeout * factor, period * factor, behave)
            elif op[0] == "sleep":
                op = ("sleep", op[1] * factor)
            scaled.append(op)
        return modes, tuple(scaled), ticks, ()

    modes = st.lists(st.sampled_from([0, 1, 1, 2, 3, 4]), min_size=1, max_size=2).map(tuple)
    return st.tuples(modes, ops(), jitter(), st.sampled_from([60, 1000, 3600, 86400])).map(build)


SUBS = [Sub("long", long, run, 800),
        Sub("histories", lambda: st.tuples(versions(), ops(), jitter(), jitter()), run, 7000),
        Sub("many", many, run, 240),
        Sub("crowd", lambda: st.tuples(versions(), ops(12, 50), st.just(()), st.just(())), run, 1200),
        Sub("threads", lambda: st.tuples(versions(), ops(), st.just(()), st.just(()),
                                         gen.schedules()), run, 2400)]
