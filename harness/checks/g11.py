"""G11: discovery and synchronization are paid for once."""
from hypothesis import strategies as st

from harness import gen, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same
from harness.mgr import U, Engine, Req

RULE = ("histories of v3 requests by three users on managers with given or undiscovered engine ids "
        "against RFC 3414 agents that answer before the first refresh, reboot, are replaced by "
        "another engine or stay silent for a while, over a network that duplicates datagrams; non-trivial = an agent rebooted or was replaced "
        "and later a request cost a single datagram")
ASSUMPTIONS = ["agents answer within a refresh period, repeat user names in reports and keep perfect "
               "time between reboots",
               "what a request costs while its agent is silent is left to G02",
               "a request that is only waited for after its deadline may not have been sent"]

ENGINES = [b"\x80\x00\x1f\x88\x80engine%d" % i for i in range(6)]
PERIOD = 64


class Managed:
    def __init__(self, m, place, address, given):
        self.m, self.place, self.address = m, place, address
        self.knows = given              # the engine that it was told of or has learnt
        self.strict = given is not None  # only an authentic response changes that
        self.sent = 0                   # datagrams since nothing was pending
        self.due = 0                    # how many there may be
        self.free = False               # its agent was silent meanwhile
        self.open = []


class Place:
    """An address with an agent."""

    def __init__(self, agent):
        self.agent, self.down = agent, False
        self.met = set()                # (engine, boots) heard of by an authentic message


class Run:
    def __init__(self, case, ctx, world):
        users, places, managers, ops, self.delays, self.copies = case
        self.ctx, self.world = ctx, world
        self.users = [uc.make(spec) for spec in users]
        self.engine = Engine(autowait=False)
        for u in self.users:
            uc.add_user(self.engine.usm, u)
        self.fresh = list(ENGINES)
        self.met = set()
        self.places = [Place(self.agent(*p)) for p in places]
        self.managers, self.reqs = [], []
        self.serial = self.count = 0
        self.changed = False
        world.on_send = self.on_send
        for which, given in managers:
            p = self.places[which % len(self.places)]
            address = ("10.11.0.1", 1000 + len(self.managers))
            kw = {"engineID": p.agent.engine} if given else {}
            self.managers.append(Managed(self.engine.Manager(address, **kw), p, address,
                                         p.agent.engine if given else None))

    def agent(self, boots, uptime, hints):
        a = mgr.Agent(self.world, self.fresh.pop(0), self.users, boots, uptime, hints)
        a.answer = self.answer
        return a

    def answer(self, o, pdu, user):
        self.serial += 1
        return ("resp", pdu[1], 0, 0, ((pdu[4][0][0], ("int", self.serial)),) + pdu[4][1:])

    def on_send(self, transport, address, data):
        w = self.world
        m = next((x for x in self.managers if x.address == address), None)
        require(m is not None, "datagram sent to {}", address)
        m.sent += 1
        o = ur.Opened(data)
        if o.engine:
            user = next((u for u in self.users if u.name == o.user), None)
            pdu = o.scoped(user)[2]
            self.reqs[mgr.index_of(pdu)].sent.append((w.now, o.engine))
        if m.place.down:
            return
        self.count += 1
        d = self.delays[self.count % len(self.delays)] * U
        agent = m.place.agent

        def arrive():
            reply = agent.process(data)
            if reply is not None:
                w.after(d / 2, lambda: w.hear(transport, address, reply))
                if how == "reply":
                    w.after(d / 2 + extra, lambda: w.hear(transport, address, reply))
        w.after(d / 2, arrive)
        # datagrams may be duplicated on the way
        how, extra = self.copies[self.count % len(self.copies)]
        extra *= U
        if how == "request":
            w.after(d / 2 + extra, arrive)
        if how:
            self.ctx.label("duplicated " + how)

    def request(self, which, kind, ui, level):
        m = self.managers[which % len(self.managers)]
        r = Req(len(self.reqs), m, kind, 6400 * U, PERIOD * U)
        r.user = self.users[ui % len(self.users)]
        r.level = level & r.user.level
        if r.level == 2:
            r.level = 3
        agent = m.place.agent
        r.cost = 1
        if m.knows != agent.engine:
            r.cost += 1
        if r.level and (agent.engine, agent.boots) not in self.met:
            r.cost += 1
        if not m.open:
            m.sent = m.due = 0
            m.free = False
        m.due += r.cost
        m.free = m.free or m.place.down
        m.open.append(r)
        self.reqs.append(r)
        vbs = ((r.name, ("oct", b"value") if kind == "set" else ("null",)),)
        if m.place.down:
            r.timeout = 3 * PERIOD * U
        r.t0 = self.world.now
        r.handle = mgr.call(m.m, kind, vbs, bulk=(0, 3), timeout=r.timeout,
                            refreshPeriod=r.period, user=r.user.name,
                            securityLevel=uc.level(r.level))

    def wait(self, r):
        m = r.manager
        if r not in m.open:
            return
        # a request that had to be held back is only sent while someone waits
        late = self.world.now > r.t0 + r.timeout - PERIOD * U
        got = mgr.outcome(r.handle.wait)
        what = f"request {r.index} (level {r.level})"
        if m.free or late:
            require(got[0] in ("ok", "timeout"), "{}: {}", what, got)
        else:
            require(got[0] == "ok", "{} on a prompt network: {}", what, got)
        if got[0] == "ok":
            agent = m.place.agent
            if r.level:
                self.met.add((agent.engine, agent.boots))
                m.strict = True
            if r.level or not m.strict:
                m.knows = agent.engine
            if r.cost == 1 and self.changed and not m.free:
                self.ctx.nontrivial()
            if not m.free:
                require(len(r.sent) <= r.cost, "{} was transmitted {} times; {} were due", what,
                        len(r.sent), r.cost)
                self.ctx.label(f"cost {r.cost}")
        self.close(r)

    def close(self, r):
        m = r.manager
        m.open.remove(r)
        if not m.open and not m.free:
            require(m.sent <= m.due, "a manager sent {} datagrams where {} were due", m.sent, m.due)

    def drop(self, r):
        if r in r.manager.open:
            r.handle = None
            self.close(r)
            self.world.sleep(PERIOD * U)
            self.ctx.label("dropped")

    def collect(self, place=None):
        for r in self.reqs:
            if r in r.manager.open and (place is None or r.manager.place is place):
                self.wait(r)

    def upset(self, which, how, x):
        p = self.places[which % len(self.places)]
        self.collect(p)
        if how == "down":
            p.down = not p.down
        elif how == "reboot":
            p.agent.reboot(1 + x % 3)
            self.changed = True
        elif self.fresh:
            p.agent = self.agent(1 + x, x * 100, bool(x & 1))
            self.changed = True
        self.ctx.label(how)


def run(case, ctx):
    with sim.Simulation() as world:
        s = Run(case, ctx, world)
        for op in case[3]:
            if op[0] == "req":
                s.request(*op[1:])
            elif op[0] == "sleep":
                world.sleep(op[1] * U)
            elif op[0] == "upset":
                s.upset(*op[1:])
            elif s.reqs:
                (s.wait if op[0] == "wait" else s.drop)(s.reqs[-1 - op[1] % len(s.reqs)])
        s.collect()
        s.engine.shutdown()


def cases():
    users = st.tuples(uc.user_spec(b"user0", 1), uc.user_spec(b"user1"), uc.user_spec(b"user2"))
    place = st.tuples(st.integers(0, 5), st.one_of(st.integers(0, 1000), st.just(10**6)),
                      st.booleans())
    managers = gen.sized(st.tuples(st.integers(0, 1), st.booleans()), 1, 3)
    req = st.tuples(st.just("req"), st.integers(0, 2), st.sampled_from(["get", "next", "set", "bulk"]),
                    st.integers(0, 2), st.sampled_from([0, 0, 1, 3]))
    pair = req.map(lambda r: (r, ("wait", 0)))
    one = lambda s: s.map(lambda x: (x,))
    upset = st.tuples(st.just("upset"), st.integers(0, 1),
                      st.sampled_from(["reboot", "replace", "replace", "down"]), st.integers(0, 3))
    op = st.one_of(pair, pair, pair, one(req), one(upset), one(upset),
                   one(st.tuples(st.sampled_from(["wait", "wait", "drop"]), st.integers(0, 3))),
                   one(st.tuples(st.just("sleep"), st.one_of(st.integers(0, 100), st.sampled_from(
                       [151 * 64, 10**6 * 64])))))
    ops = st.tuples(pair, gen.sized(op, 2, 14)).map(
        lambda t: t[0] + tuple(o for x in t[1] for o in x))
    return st.tuples(users, gen.sized(place, 1, 2), managers, ops,
                     gen.sized(st.integers(1, 20), 1, 4),
                     gen.sized(st.tuples(st.sampled_from([None, None, "reply", "request"]),
                                         st.sampled_from([0, 1, 5, 20, 50, 100, 640])), 1, 4))


SUBS = [Sub("histories", cases, run, 4000)]
