"""G10: an interrupted wait ends at once and harms nothing else."""
import gc

from hypothesis import strategies as st

from harness import conv, gen, ref, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import U, VERSIONS, Engine, Req

from snmp.manager.v3 import UnknownUserNameReport

RULE = ("histories of requests on v1, v2c and v3 managers of one engine (waited for in the call or "
        "by handle, again after an interrupt, dropped), with agents that answer late or not at all "
        "or report an unknown user, where the user interrupts some of the waits at a generated "
        "moment; afterwards every manager has to serve another request, and no engine id may stay "
        "bound; non-trivial = a wait was interrupted while another request was pending")
ASSUMPTIONS = ["the interrupt arrives while the caller is blocked, not while Python code of the "
               "library runs",
               "a v3 request whose wait was interrupted may time out when it is waited for again: "
               "only its outcome, its deadline and the others are judged"]


class Run:
    def __init__(self, case, ctx, world):
        users, managers, ops, self.delays, self.interrupts = case
        self.ctx, self.world = ctx, world
        self.users = [uc.make(u) for u in users]
        self.engine = Engine(autowait=False)
        for u in self.users:
            uc.add_user(self.engine.usm, u)
        self.engine.usm.addUser("else", namespace="else")
        self.managers, self.reqs = [], []
        self.sends = {}
        self.log = []                   # (time, manager, request if v1 or v2c) of each datagram
        self.waits = self.serial = 0
        self.calm = False
        world.on_send = self.on_send
        for i, (version, given) in enumerate(managers):
            address = ("10.10.0.%d" % i, 161)
            agent, kw = None, {}
            if version == 3:
                # the agent does not know the last user
                agent = mgr.Agent(world, b"\x80\x00\x1f\x88\x04g10-%d" % i, self.users[:2], 3, 500)
                agent.answer = lambda o, pdu, user: self.answer(pdu)
                if given:
                    kw = {"engineID": agent.engine}
            else:
                kw = {"version": VERSIONS[version], "community": b"c%d" % i}
            self.managers.append((self.engine.Manager(address, **kw), version, address, agent))

    # agents
    def answer(self, pdu):
        self.serial += 1
        return ("resp", pdu[1], 0, 0, ((pdu[4][0][0], ("int", self.serial)),))

    def on_send(self, transport, address, data):
        i = next(n for n, m in enumerate(self.managers) if m[2] == address)
        index = None
        if self.managers[i][1] != 3:
            index = mgr.index_of(mgr.parse_community(data)[2])
        self.log.append((self.world.now, i, index))
        n = self.sends[i] = self.sends.get(i, -1) + 1
        delay = 2 if self.calm else self.delays[n % len(self.delays)]
        if delay:
            self.world.after(delay * U, lambda: self.arrive(i, transport, data))

    def arrive(self, i, transport, data):
        _, version, address, agent = self.managers[i]
        if version == 3:
            reply = agent.process(data)
            o = ur.Opened(reply)
            user = next((u for u in self.users if u.name == o.user), None)
            pdu = o.scoped(user)[2]
            if pdu[0] == "report":
                if pdu[4][0][0] == mgr.UNKNOWNUSER:
                    r = self.reqs[mgr.index_of(ur.Opened(data).scoped(self.users[2])[2])]
                    r.reports.append(self.world.now)
                pdu = None
        else:
            v, community, pdu = mgr.parse_community(data)
            pdu = self.answer(pdu)
            reply = ref.enc_community(v, community, pdu)
        if pdu is not None:
            r = self.reqs[mgr.index_of(pdu)]
            r.answers.append((self.world.now, pdu[4]))
            if r.broken and not r.waiting:
                self.ctx.label("answered after an interrupt")
        self.world.hear(transport, address, reply)

    # caller
    def request(self, which, level, timeout, period, ui, call):
        m, version, _, agent = self.managers[which % len(self.managers)]
        r = Req(len(self.reqs), which % len(self.managers), "get", timeout * U, period * U)
        r.version, r.reports, r.broken, r.waiting = version, [], [], False
        kw = {}
        r.known = True
        if version == 3:
            user = self.users[ui % len(self.users)]
            r.known = user is not self.users[2]
            kw = {"user": user.name, "securityLevel": uc.level(level & user.level)}
        self.reqs.append(r)
        r.t0 = self.world.now
        kw.update(timeout=r.timeout, refreshPeriod=r.period)
        vbs = ((r.name, None),)
        if call:
            self.judge(r, lambda: mgr.call(m, "get", vbs, wait=True, **kw))
            r.open = False
        else:
            r.handle = mgr.call(m, "get", vbs, **kw)

    def judge(self, r, fn):
        w = self.world
        at = self.interrupts[self.waits % len(self.interrupts)] if not self.calm else None
        self.waits += 1
        mine, fired, start = self.waits, [], w.now

        def interrupt():
            if mine == self.waits and r.waiting:
                if w.waiting:
                    fired.append(w.now)
                w.interrupt()
        if at is not None:
            w.after(at * U, interrupt)
        r.waiting = True
        try:
            got = mgr.outcome(fn)
        except KeyboardInterrupt:
            got = ("interrupted",)
        r.waiting = False
        what = f"wait {mine} for request {r.index} (v{r.version})"
        # a v3 request may have to wait for another one to discover the engine
        period = max(q.period for q in self.reqs if q.manager == r.manager and r.version == 3
                     or q is r)
        times = [t for t, i, index in self.log if i == r.manager and t >= start
                 and index in (None, r.index)]
        for a, b in zip([start] + times, times + [w.now]):
            require(b - a <= period, "during {} there was no transmission for {} s; period {}", what,
                    b - a, period)
        end = r.t0 + r.timeout
        if fired:
            same(w.now, fired[0], f"the time at which {what} ended after it was interrupted")
            if got[0] == "raised":
                require(isinstance(got[1], UnknownUserNameReport) and r.reports, "{} was "
                        "interrupted and raised {!r}; reports: {}", what, got[1], r.reports)
                self.ctx.label("report instead of the interrupt")
            else:
                same(got, ("interrupted",), f"{what}, which was interrupted")
            others = [q for q in self.reqs if q is not r and q.open and not q.results]
            self.ctx.label("interrupted v%d" % r.version)
            if others:
                self.ctx.nontrivial()
            r.broken.append(w.now)
            return
        require(w.now <= max(start, end), "{} was blocked until {} s after its deadline", what,
                w.now - end)
        intime = [t for t, _ in r.answers if t < end]
        if got[0] == "ok":
            require(got[1] in [vbs for _, vbs in r.answers], "{} returned {}; its responses were {}",
                    what, got[1], r.answers)
        else:
            if got[0] == "raised":
                require(isinstance(got[1], UnknownUserNameReport) and r.reports, "{} raised {!r}; "
                        "reports: {}", what, got[1], r.reports)
            else:
                same(got, ("timeout",), what)
                require(not r.reports or r.broken, "{} timed out although an error was reported",
                        what)
            require(w.now >= end, "{} failed {} s before its deadline", what, end - w.now)
            if not (r.broken and r.version == 3):
                require(not intime, "{} failed although a response to it arrived {} s before the "
                        "deadline", what, end - (intime or [0])[0])
        if r.broken:
            self.ctx.label("again, " + got[0])
        r.results.append(got[:1])   # no exception: its traceback would hold the request

    def wait(self, r):
        self.judge(r, r.handle.wait)
        if r.results:
            r.open = False

    def drop(self, r):
        r.handle = None
        r.open = False

    def finish(self):
        for r in self.reqs:
            while r.handle is not None and not r.results:
                self.wait(r)
                if len(r.broken) > 3:
                    break
        self.calm = True
        for i in range(len(self.managers)):
            # held or not, the requests so far may not stand in the way of this one
            self.request(i, 3, 64 * 20, 64, 0, True)
            got = self.reqs[-1].results
            require(got and got[0][0] == "ok", "a request on manager {} after all that: {}", i, got)
        for r in self.reqs:
            self.drop(r)
        self.world.sleep(800 * U)
        engines = [m[3].engine for m in self.managers if m[3]]
        self.managers.clear()
        gc.collect(0)
        for e in engines:
            try:
                self.engine.Manager("10.10.1.1", namespace="else", engineID=e)
            except Exception as err:
                require(False, "{} is still in use when all requests and managers are gone: {!r}",
                        e, err)
        self.engine.shutdown()


def run(case, ctx):
    with sim.Simulation() as world:
        s = Run(case, ctx, world)
        for op in case[2]:
            if op[0] == "req":
                s.request(*op[1:])
            elif op[0] == "sleep":
                world.sleep(op[1] * U)
            elif s.reqs:
                r = s.reqs[op[1] % len(s.reqs)]
                if r.handle is not None and r.open:
                    (s.wait if op[0] == "wait" else s.drop)(r)
        s.finish()


def cases():
    users = st.tuples(uc.user_spec(b"user0", 1), uc.user_spec(b"user1"), uc.user_spec(b"unknown"))
    managers = gen.sized(st.tuples(st.sampled_from([0, 1, 3, 3, 3]), st.booleans()), 1, 3)
    req = st.tuples(st.just("req"), st.integers(0, 2), st.sampled_from([0, 1, 3, 3]),
                    st.sampled_from([40, 200, 640]), st.sampled_from([16, 64, 64]),
                    st.sampled_from([0, 0, 1, 1, 2]), st.sampled_from([False, False, True]))
    i = st.integers(0, 5)
    op = st.one_of(req, req, st.tuples(st.just("wait"), i), st.tuples(st.just("wait"), i),
                   st.tuples(st.just("drop"), i), st.tuples(st.just("sleep"), st.integers(0, 80)))
    delays = gen.sized(st.sampled_from([0, 0, 2, 20, 70, 150]), 1, 4)
    interrupts = gen.sized(st.one_of(st.none(), st.integers(0, 10), st.integers(0, 10),
                                     st.integers(0, 100), st.integers(0, 300)), 1, 4)
    first = req.map(lambda t: t[:-1] + (False,))
    return st.tuples(users, managers, st.tuples(first, req, gen.sized(op, 0, 8)).map(
        lambda t: t[:2] + t[2]), delays, interrupts)


SUBS = [Sub("histories", cases, run, 5000)]
