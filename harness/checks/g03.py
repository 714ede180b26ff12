"""G03: v3 requests complete against any conforming agent over a lossy network."""
import math

from hypothesis import strategies as st

from harness import gen, ref, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import U, VERSIONS, Engine, Req

RULE = ("histories of concurrent v3 requests by several users at several levels on managers with "
        "given or undiscovered engine ids against independent RFC 3414 agents in a simulated "
        "network: for a generated time datagrams are lost, duplicated, delayed and reordered by a "
        "generated script while agents reboot and clocks jump, then it becomes reliable; "
        "non-trivial = at least two requests, a datagram was lost or delayed and some agent had to "
        "report (discovery or resynchronization)")
ASSUMPTIONS = ["'enough deliveries' is decided as: the network is reliable and no agent reboots "
               "during the last (longest) refresh period and 16 round trips before the deadline",
               "agents whose boots counter has latched at 2^31-1 never answer and are left out",
               "requests that the agent ignores are never the ones that discover or synchronize"]

ENGINES = [b"\x80\x00\x1f\x88\x80agent0", b"\x80\x00\x1f\x88\x80agent-one"]
ADDRESSES = ["10.2.0.1", "10.2.0.2"]
RTT = 2
KINDS = ["get", "next", "set", "bulk"]


class Managed:
    def __init__(self, m, agent, address, given):
        self.m, self.agent, self.address, self.given = m, agent, address, given
        self.heard = False              # anything was delivered from its agent
        self.answered = None            # when a response first settled that the agent is there


class Run:
    def __init__(self, case, ctx, world):
        (users, agents, managers, ops, self.bad, self.script) = case[:6]
        self.ctx, self.world = ctx, world
        self.threaded = len(case) > 8
        self.start = world.now
        self.users = [uc.make(spec) for spec in users]
        self.engine = Engine(autowait=False)
        for u in self.users:
            uc.add_user(self.engine.usm, u)
        self.agents, self.managers, self.reqs = [], [], []
        self.serial = self.sends = self.lost = 0
        self.last_upset = world.now
        for i, (boots, uptime, hints, echo) in enumerate(agents):
            agent = mgr.Agent(world, ENGINES[i], self.users, boots, uptime, hints, echo)
            agent.answer = self.answer
            self.agents.append(agent)
        world.on_send = self.on_send
        for which, given in managers:
            i = which % len(self.agents)
            # each manager has its own port, so that datagrams can be told apart
            address = (ADDRESSES[i], 1000 + len(self.managers))
            kw = {"engineID": ENGINES[i]} if given else {}
            m = self.engine.Manager(address, **kw)
            self.managers.append(Managed(m, self.agents[i], address, given))

    @property
    def settled(self):
        """From when on the network is reliable."""
        longest = max([d for f in self.script for copy in f for d in copy], default=0)
        return max(self.start + (self.bad + longest + RTT) * U, self.last_upset)

    def answer(self, o, pdu, user):
        r = self.reqs[mgr.index_of(pdu)]
        if r.silent:
            return None
        self.serial += 1
        if r.behave:
            return ("resp", pdu[1], r.behave, 1, pdu[4])
        return ("resp", pdu[1], 0, 0, ((r.name, ("int", self.serial)),) + pdu[4][1:])

    def on_send(self, transport, address, data):
        w = self.world
        m = next((x for x in self.managers if x.address == address), None)
        require(m is not None, "datagram sent to {}", address)
        self.inspect(m, data)
        if w.now < self.start + self.bad * U and self.script:
            fate = self.script[self.sends % len(self.script)]
            self.sends += 1
            if not any(fate):
                self.lost += 1
        else:
            fate = ((RTT,),)
        for copies in fate:
            first = min(copies, default=0)
            # the agent gets it half way through the shortest delay
            w.after(first * U / 2, lambda c=copies, f=first: self.arrive(
                m, transport, address, data, [d * U - f * U / 2 for d in c]))

    def arrive(self, m, transport, address, data, delays):
        reply = m.agent.process(data)
        if reply is not None:
            for d in delays:
                now = self.world.now
                self.world.after(d, lambda: self.deliver(m, transport, address, reply, now))

    def deliver(self, m, transport, address, reply, made):
        o = ur.Opened(reply)
        user = m.agent.users.get(o.user)
        pdu = o.scoped(user)[2]
        m.heard = True
        if pdu[0] == "resp":
            r = self.reqs[mgr.index_of(pdu)]
            r.answers.append((self.world.now, pdu))
            r.fresh = r.fresh or (self.last_upset == self.start and self.world.now - made < 140
                                  and self.world.now + 1 < r.t0 + r.timeout)
            if (m.answered is None and r.handle is not None and not r.results
                    and max(self.last_upset, self.world.now - 5) < made
                    and self.world.now + 1 < r.t0 + r.timeout):
                m.answered = self.world.now
        self.world.hear(transport, address, reply)

    def inspect(self, m, data):
        """Every outgoing datagram is a proper probe or a proper request."""
        o = ur.Opened(data)
        require(o.reportable, "request is not reportable")
        if o.engine == b"":
            require(o.level == 0 and o.user == b"", "discovery message at level {} with user {}",
                    o.level, o.user)
            engine, context, pdu = o.scoped()
            require(pdu[0] == "get" and not pdu[4] and context == b"",
                    "discovery message carries {}", pdu)
            require(not m.given, "discovery although the engine id was given")
            self.ctx.label("probe")
            return
        require(m.given or m.heard, "request sent before the engine id was discovered")
        same(o.engine, m.agent.engine, "engine id of a request")
        user = next((u for u in self.users if u.name == o.user), None)
        require(user is not None, "request from unknown user {}", o.user)
        if o.level:
            require(not o.level & ~user.level and o.authentic(user), "request is not authentic")
        engine, context, pdu = o.scoped(user)
        index = mgr.index_of(pdu)
        require(index is not None and index < len(self.reqs), "request carries {}", pdu)
        r = self.reqs[index]
        require(r.manager is m, "request was sent to another agent")
        same((engine, context), (m.agent.engine, b""), "context")
        same((o.level, o.user), (r.level, r.user.name), f"level and user of request {index}")
        same(pdu, (r.kind, pdu[1]) + ((1, 3) if r.kind == "bulk" else (0, 0)) + (r.vbs,),
             f"PDU of request {index}")
        r.sent.append((self.world.now, pdu))

    def request(self, which, kind, ui, level, timeout, period, behave, silent):
        m = self.managers[which % len(self.managers)]
        r = Req(len(self.reqs), m, kind, timeout * U, period * U)
        r.user = self.users[ui % len(self.users)]
        r.level = level & r.user.level
        if r.level == 2:
            r.level = 3
        mine = [q for q in self.reqs if q.manager is m]
        r.silent = bool(silent and any(x[0] != "timeout" for q in mine for x in q.results) or
                        silent and r.level == 0 and len(mine) >= 1 and mine[0].level and m.given
                        and not mine[0].silent and mine[0].handle is not None
                        and mine[0].timeout >= 30)
        r.behave, r.fresh = behave, False
        names = [(r.name, ("null",)), (r.name + (1,), ("null",))]
        r.vbs = tuple((o, ("oct", b"value")) for o, _ in names) if kind == "set" else tuple(names)
        self.reqs.append(r)
        r.t0 = self.world.now
        r.handle = mgr.call(m.m, kind, r.vbs, bulk=(1, 3), timeout=r.timeout,
                            refreshPeriod=r.period, user=r.user.name,
                            securityLevel=uc.level(r.level))
        r.t1 = self.world.now
        self.ctx.label(f"level {r.level}", "engine id given" if m.given else "discovery",
                       "silent" if r.silent else "answered")

    def wait(self, r):
        w = self.world
        begin = w.now
        got = mgr.outcome(r.handle.wait)
        what = f"request {r.index} (level {r.level})"
        allowed = []
        for _, pdu in r.answers:
            allowed.append(("error", pdu[2]) if pdu[2] else ("ok", pdu[4]))
        if got[0] == "error":
            require((tuple(got[2].name) == r.name), "{}: offending binding {}", what, got[2])
            got = got[:2]
        if got[0] == "raised":
            require(False, "{} raised {}: {}", what, type(got[1]).__name__, got[1])
        if got[0] == "timeout":
            periods = max(q.period for q in self.reqs if q.manager is r.manager)
            # (an agent that never reboots and whose clock never jumps is never out of step)
            require(not r.fresh or self.last_upset != self.start, "{} timed out after {} s; it was "
                    "transmitted at {} and answered at {}", what, r.timeout,
                    [t - r.t0 for t, _ in r.sent], [t - r.t0 for t, _ in r.answers])
            need = (1 * periods + 16 * RTT * U + 200 * w.max_tick + 20 * w.max_sleep)
            since = max(self.settled, begin, r.t1)
            # as long as all that the agent was sent is a request that it ignores, others must wait
            if any(q.silent and q.manager is r.manager and q.t0 < (r.manager.answered or math.inf)
                   for q in self.reqs):
                since = max(since, r.manager.answered or math.inf)
            require(r.silent or r.results or since + need > r.t0 + r.timeout,
                    "{} timed out after {} s, although the network was reliable for the last {} s "
                    "of them; it was transmitted at {} and answered at {}", what, r.timeout,
                    r.t0 + r.timeout - since, [t - r.t0 for t, _ in r.sent],
                    [t - r.t0 for t, _ in r.answers])
            if not r.silent and since + need <= r.t0 + r.timeout + 1:
                self.ctx.label("timeout")
        else:
            require(got in allowed, "{} returned {}; its responses were {}", what, got, allowed)
        if r.results and not (self.threaded and r.results[-1] == ("timeout",)):
            # (a response that is being processed when wait() gives up may still be there later)
            same(got, r.results[-1], f"{what}: repeated wait")
        r.results.append(got)
        r.open = False
        self.ctx.label("outcome: " + got[0])

    def upset(self, i, how, x):
        agent = self.agents[i % len(self.agents)]
        if how == "reboot":
            agent.reboot(1 + x % 3)
        else:
            agent.booted -= x
        self.last_upset = self.world.now
        self.ctx.label(how)


def run(case, ctx):
    ops, ticks, oversleeps = case[3], case[6], case[7]
    with sim.Simulation([t * U for t in ticks], [t * U for t in oversleeps], *case[8:]) as world:
        s = Run(case, ctx, world)
        for op in ops:
            if op[0] == "req":
                s.request(*op[1:])
            elif op[0] == "sleep":
                world.sleep(op[1] * U)
            elif op[0] == "upset":
                s.upset(*op[1:])
            elif op[0] == "later":
                world.after(op[1] * U, lambda how=op[2:]: s.upset(*how))
            elif s.reqs:
                r = s.reqs[op[1] % len(s.reqs)]
                if op[0] == "wait" and r.handle is not None:
                    s.wait(r)
                elif op[0] == "drop" and not any(q.silent for q in s.reqs):
                    r.handle = None
                    ctx.label("dropped")
        for r in s.reqs:
            if r.handle is not None and not r.results:
                s.wait(r)
        reports = {x[1] for a in s.agents for x in a.log if x[0] == "report"}
        for x in reports:
            ctx.label(f"report {x}")
        require(reports <= {2, 4}, "agents had to report {}", reports)
        ctx.nontrivial(len(s.reqs) > 1 and s.lost and reports)
        s.engine.shutdown()


def delay():
    return st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 100),
                     st.sampled_from([64, 65, 128, 640, 151 * 64]))


def fate():
    copies = st.lists(delay(), min_size=1, max_size=2).map(tuple)
    return st.one_of(st.just(()), st.just(()), delay().map(lambda d: ((d,),)),
                     st.lists(copies, min_size=1, max_size=2).map(tuple))


def ops(least=1, most=9):
    timeout = st.sampled_from([64, 200, 640, 640, 6400, 6400, 64000])
    req = st.tuples(st.just("req"), st.integers(0, 2), st.sampled_from(KINDS), st.integers(0, 2),
                    st.sampled_from([0, 1, 3, 3]), timeout, st.sampled_from([16, 64, 64, 100]),
                    st.sampled_from([0, 0, 0, 2, 5]), st.sampled_from([False, False, True]))
    i = st.integers(0, 7)
    upset = (st.integers(0, 1), st.sampled_from(["reboot", "jump"]),
             st.sampled_from([1, 2, 149, 150, 151, 100000]))
    op = st.one_of(req, req, st.tuples(st.just("wait"), i), st.tuples(st.just("wait"), i),
                   st.tuples(st.just("sleep"), st.one_of(st.integers(0, 64), st.sampled_from(
                       [128, 640, 149 * 64, 151 * 64, 1000 * 64]))),
                   st.tuples(st.just("upset"), *upset),
                   st.tuples(st.just("later"), st.integers(0, 200), *upset),
                   st.tuples(st.just("drop"), i))
    return st.tuples(req, gen.sized(op, least, most)).map(lambda t: (t[0],) + t[1])


def jitter():
    return st.one_of(st.just(()), st.just(()), st.just(()),
                     st.lists(st.sampled_from([0, 0, 1, 3]), min_size=1, max_size=5).map(tuple))


def users():
    return st.lists(st.integers(0, 3), min_size=1, max_size=3).flatmap(lambda kinds: st.tuples(
        *[uc.user_spec(b"user%d" % i) for i, _ in enumerate(kinds)]))


def agents():
    one = st.tuples(st.one_of(st.integers(0, 5), st.sampled_from([1, 2**31 - 200])),
                    st.one_of(st.integers(0, 1000), st.sampled_from([0, 149, 151, 2**31 - 10**6])),
                    st.booleans(), st.booleans())
    return st.lists(one, min_size=1, max_size=2).map(tuple)


def histories(*rest, size=(1, 9)):
    return st.tuples(
        users(), agents(), st.lists(st.tuples(st.integers(0, 1), st.booleans()), min_size=1,
                                    max_size=3).map(tuple),
        ops(*size), st.sampled_from([0, 32, 128, 320, 1000, 5000]),
        st.lists(fate(), min_size=1, max_size=8).map(tuple), *rest)


def resynchronizations():
    """Agents that reboot again and again while few requests are under way; the last reboot leaves
    time for little more than one more refresh."""
    times = st.lists(st.integers(0, 300), min_size=1, max_size=4).map(sorted)

    def build(t):
        spec, level, given, kinds, period, reboots, slack, script, ticks = t
        last = reboots[-1]
        timeout = last + 3 * RTT + period + 16 * RTT + 1 + slack * (period - 16 * RTT) // 16
        ops = tuple(("later", x, 0, "reboot", 1) for x in reboots)
        ops += tuple(("req", 0, k, 0, level, timeout, period, 0, False) for k in kinds)
        return ((spec,), ((1, 1000, False, True),), ((0, given),), ops, last, script, ticks, ())

    return st.tuples(
        uc.user_spec(b"user0"), st.sampled_from([1, 3]), st.booleans(),
        st.lists(st.sampled_from(KINDS), min_size=1, max_size=2), st.sampled_from([64, 64, 100]),
        times, st.integers(0, 16), st.lists(st.sampled_from([(), ((1,),), ((2,),), ((2,), (3,))]),
                                            min_size=2, max_size=8).map(tuple),
        st.sampled_from([(), (), (0, 1)])).map(build)


def many():
    """Dozens of requests made before the manager knows its agent."""
    def build(t):
        us, given, n, reqs, waits, bad, script, upset = t
        ops = tuple(reqs[i % len(reqs)] for i in range(n))
        if upset:
            ops = ops[:n // 2] + (("later", upset, 0, "reboot", 1),) + ops[n // 2:]
        return (us, ((1, 1000, True, True),), tuple((0, g) for g in given),
                ops + tuple(("wait", w) for w in waits), bad, script, (), ())

    req = st.tuples(st.just("req"), st.integers(0, 1), st.sampled_from(KINDS), st.integers(0, 2),
                    st.sampled_from([0, 1, 3]), st.sampled_from([640, 6400]),
                    st.sampled_from([64, 64, 100]), st.sampled_from([0, 0, 2]), st.just(False))
    return st.tuples(users(), gen.sized(st.booleans(), 1, 2), gen.ints(10, 90),
                     gen.sized(req, 1, 4), st.lists(st.integers(0, 89), max_size=3).map(tuple),
                     st.sampled_from([0, 32, 128]),
                     st.lists(fate(), min_size=1, max_size=4).map(tuple),
                     st.sampled_from([0, 0, 5, 40])).map(build)


def late():
    """Most copies of a request are lost, and an answer to any of them comes much later."""
    def build(t):
        us, given, n, delays, reqs, sleep = t
        script = ((),) * n + tuple(((d,),) for d in delays)
        return (us, ((1, 1000, True, True),), ((0, given),),
                reqs[:1] + ((("sleep", sleep),) if sleep else ()) + reqs[1:],
                10**6, script, (), ())

    req = st.tuples(st.just("req"), st.just(0), st.sampled_from(KINDS), st.integers(0, 2),
                    st.sampled_from([0, 1, 3]), st.sampled_from([640, 1280, 2560]),
                    st.sampled_from([8, 16, 16, 32]), st.sampled_from([0, 0, 2]), st.just(False))
    delays = gen.sized(gen.pick(st.integers(1, 40), st.integers(40, 1000), st.integers(1, 2000)),
                       1, 3)
    return st.tuples(users(), st.booleans(), gen.ints(0, 40), delays, gen.sized(req, 1, 3),
                     st.sampled_from([0, 0, 30, 100])).map(build)


SUBS = [Sub("late", late, run, 600), Sub("many", many, run, 160),
        Sub("resync", resynchronizations, run, 2400),
        Sub("histories", lambda: histories(jitter(), jitter()), run, 3200),
        Sub("crowd", lambda: histories(st.just(()), st.just(()), size=(12, 40)), run, 800),
        Sub("threads", lambda: histories(st.just(()), st.just(()), gen.schedules()), run, 1600)]
