"""G06: engines are bound to one namespace and released when unused."""
import gc

from hypothesis import strategies as st

from harness import gen, ref, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import U, Engine, Req

RULE = ("histories of creating, using and dropping managers and requests in three namespaces whose "
        "equally named users have different credentials, against agents that may be replaced by "
        "others, over a scripted network; after every step generated probes try to bind each "
        "engine id under another namespace; non-trivial = some probe was refused, some probe "
        "succeeded after a binding had ended, and a request was made")
ASSUMPTIONS = ["a dropped manager lives on while one of its requests does",
               "bindings that only an expired or answered request may still hold are left open"]

SPACES = ["", "two", "three"]
ENGINES = [b"\x80\x00\x1f\x88\x80agent0", b"\x80\x00\x1f\x88\x80agent1", b"\x80\x00\x1f\x88\x80x"]
ENGINES += [b"\x80\x00\x1f\x88\x80more%d" % i for i in range(9)]
CREDS = [ur.User(b"user", "md5", b"maplesyrup", "aes", b"maplesyrup"),
         ur.User(b"user", "sha1", b"swordfish", "des", b"maplesyrup"),
         ur.User(b"user", "md5", b"swordfish", "aes", b"swordfish")]


def worker_init():
    gc.collect()
    gc.freeze()


class Managed:
    def __init__(self, m, space, host, port, given):
        self.m, self.space, self.address = m, space, ("10.5.0.%d" % host, port)
        self.host, self.given = host, given
        self.heard = set()              # engines of the messages delivered to it
        self.responded = []             # engines of the responses delivered to it
        self.reqs = []

    @property
    def alive(self):
        return self.m is not None or any(r.handle is not None for r in self.reqs)


class Run:
    def __init__(self, case, ctx, world):
        (self.serves, ops, self.script) = case[:3]
        self.ctx, self.world = ctx, world
        self.engine = Engine(autowait=False)
        for space, user in zip(SPACES, CREDS):
            uc.add_user(self.engine.usm, user, namespace=space)
        # agents by engine id; each knows the user of one namespace
        self.agents = []
        for engine, space in zip(ENGINES, self.serves):
            agent = mgr.Agent(world, engine, [CREDS[space]], 1, 60)
            agent.answer = self.answer
            self.agents.append(agent)
        self.hosts = [0, 1]             # host -> agent that runs there
        self.managers, self.reqs = [], []
        self.sends = self.serial = 0
        self.refused = self.freed = 0
        self.used = set()
        world.on_send = self.on_send

    # the network
    def answer(self, o, pdu, user):
        r = self.reqs[mgr.index_of(pdu)]
        if r.behave < 0:
            return None
        self.serial += 1
        return ("resp", pdu[1], r.behave, 1 if r.behave else 0, ((r.name, ("int", self.serial)),))

    def on_send(self, transport, address, data):
        m = next(x for x in self.managers if x.address == address)
        o = ur.Opened(data)
        if o.engine:
            index = ENGINES.index(o.engine)
            user = CREDS[m.space]
            if o.level:
                require(o.authentic(user), "a message for {} is not protected with the keys of "
                        "namespace {!r}", o.engine, SPACES[m.space])
            pdu = o.scoped(user)[2]
            r = self.reqs[mgr.index_of(pdu)]
            require(r in m.reqs, "request {} was sent to another agent", r.index)
            r.used.add(index)
            self.used.add(index)
            for q in self.managers:
                if q.space != m.space and index in self.musts(q):
                    require(False, "namespace {!r} used {} while a manager in namespace {!r} "
                            "did", SPACES[m.space], o.engine, SPACES[q.space])
        fate = self.script[self.sends % len(self.script)] if self.script else (2,)
        self.sends += 1
        for delay in fate:
            self.world.after(delay * U / 2, lambda d=delay: self.arrive(m, transport, data, d))

    def arrive(self, m, transport, data, delay):
        agent = self.agents[self.hosts[m.host]]
        reply = agent.process(data)
        if reply is not None:
            self.world.after(delay * U / 2, lambda: self.deliver(m, agent, transport, reply))

    def deliver(self, m, agent, transport, data):
        o = ur.Opened(data)
        index = self.agents.index(agent)
        if m.alive:
            m.heard.add(index)
            pdu = o.scoped(agent.users.get(o.user))[2]
            if pdu[0] == "resp":
                m.responded.append(index)
                self.reqs[mgr.index_of(pdu)].answered = True
        self.world.hear(transport, m.address, data)

    # what has to be bound
    def pending(self, r):
        return (r.handle is not None and not r.results and not r.answered
                and self.world.now < r.t0 + r.timeout)

    def musts(self, m):
        """Engines that m certainly uses now."""
        found = set()
        if m.alive:
            if m.given is not None and set(m.responded) <= {m.given}:
                found.add(m.given)
            if m.given is None and m.responded and len(set(m.responded)) == 1 and m.collected:
                found.add(m.responded[0])
            for r in m.reqs:
                if self.pending(r):
                    found |= r.used
        return found

    def mays(self, m):
        found = set()
        if m.alive:
            if m.given is not None:
                found.add(m.given)
            found |= set(m.responded)
            for r in m.reqs:
                if r.handle is not None and not r.results:
                    found |= m.heard | r.used
        return found

    def bind(self, index, space):
        try:
            m = self.engine.Manager(("10.5.1.1", 161), namespace=SPACES[space],
                                    engineID=ENGINES[index])
            del m
        except Exception as err:
            del err
            return False
        return True

    def users(self, index, space):
        """The other namespaces that certainly use an engine, and those that possibly do."""
        return ({SPACES[m.space] for m in self.managers if m.space != space
                 and index in self.musts(m)},
                {SPACES[m.space] for m in self.managers if m.space != space
                 and index in self.mays(m)})

    def probe(self, index, space):
        self.world.settle()
        foreign, open_ = self.users(index, space)
        what = f"binding {ENGINES[index]!r} under namespace {SPACES[space]!r}"
        ok = self.bind(index, space)
        if not ok and not open_:
            gc.collect()                # whatever only a reference cycle keeps alive
            ok = self.bind(index, space)
        self.world.settle()
        still, meanwhile = self.users(index, space)
        foreign &= still
        open_ |= meanwhile
        if foreign:
            require(not ok, "{} succeeded although it is in use under {}", what, foreign)
            self.refused += 1
        if not open_:
            require(ok, "{} was refused although nothing uses it under another namespace", what)
            if index in self.used:
                self.freed += 1

    # the caller
    def manager(self, space, host, given):
        engine = self.hosts[host] if given == 1 else (self.hosts[host] + 1) % len(self.agents) if given else None
        self.world.settle()
        foreign, open_ = self.users(engine, space)
        m = Managed(None, space, host, 1000 + len(self.managers), engine)
        m.collected = False
        kw = {} if engine is None else {"engineID": ENGINES[engine]}
        self.managers.append(m)
        try:
            m.m = self.engine.Manager(m.address, namespace=SPACES[space], **kw)
        except Exception as err:
            require(engine is not None, "Manager() raised {}: {}", type(err).__name__, err)
        if engine is not None:
            self.world.settle()
            still, meanwhile = self.users(engine, space)
            foreign &= still
            open_ |= meanwhile
        if m.m is None and open_:
            return
        if m.m is None:
            gc.collect()                # whatever only a reference cycle keeps alive
            m.m = self.engine.Manager(m.address, namespace=SPACES[space], **kw)
        require(not foreign, "a manager was given an engine that is in use under another namespace")
        if engine is not None:
            self.used.add(engine)
        self.ctx.label("given" if given else "discovering")

    def request(self, which, level, timeout, period, behave):
        live = [m for m in self.managers if m.m is not None]
        if not live:
            return
        m = live[which % len(live)]
        r = Req(len(self.reqs), m.m, "get", timeout * U, period * U)
        r.used, r.answered, r.behave = set(), False, behave
        self.reqs.append(r)
        m.reqs.append(r)
        r.owner = m
        r.t0 = self.world.now
        r.handle = mgr.call(m.m, "get", ((r.name, None),), timeout=r.timeout,
                            refreshPeriod=r.period, securityLevel=uc.level(level))
        r.manager = None
        self.ctx.label(f"level {level}")

    def wait(self, r):
        got = mgr.outcome(r.handle.wait)
        kind = got[0]
        if kind in ("ok", "error"):
            require(r.answered, "request {} returned without a response", r.index)
            r.owner.collected = True
        del got
        r.results.append(kind)
        self.ctx.label("outcome: " + kind)


def run(case, ctx):
    with sim.Simulation((), (), *case[3:]) as world:
        s = Run(case, ctx, world)
        for op in case[1]:
            if op[0] == "manager":
                s.manager(*op[1:])
            elif op[0] == "req":
                s.request(*op[1:])
            elif op[0] == "sleep":
                world.sleep(op[1] * U)
            elif op[0] == "probe":
                s.probe(*op[1:])
            elif op[0] == "replace":
                s.hosts[op[1] % 2] = op[2]
                ctx.label("replace")
            elif op[0] == "dropm":
                live = [m for m in s.managers if m.m is not None]
                if live:
                    live[op[1] % len(live)].m = None
                    ctx.label("drop manager")
            else:
                live = [r for r in s.reqs if r.handle is not None]
                if live:
                    r = live[op[1] % len(live)]
                    if op[0] == "wait":
                        s.wait(r)
                    else:
                        r.handle = None
                        ctx.label("drop request")
        for r in s.reqs:
            if r.handle is not None and not r.results:
                s.wait(r)
        for i in range(len(s.agents)):
            for space in range(len(SPACES)):
                s.probe(i, space)
        for m in s.managers:
            m.m = None
        for r in s.reqs:
            r.handle = None
        refused = s.refused
        for i in range(len(s.agents)):
            for space in range(len(SPACES)):
                s.probe(i, space)
        require(s.refused == refused, "harness: something is still in use")
        world.queue.clear()
        s.engine.shutdown()
        ctx.nontrivial(s.refused and s.freed and s.reqs)


def ops():
    i = st.integers(0, 5)
    m = st.tuples(st.just("manager"), st.sampled_from([0, 0, 1, 1, 2]), st.sampled_from([0, 0, 0, 1]),
                  st.sampled_from([0, 0, 0, 1, 1, 2]))
    req = st.tuples(st.just("req"), i, st.sampled_from([0, 1, 3, 3]),
                    st.sampled_from([32, 64, 64, 640]), st.sampled_from([16, 64]),
                    st.sampled_from([0, 0, 0, 5]))
    probe = st.tuples(st.just("probe"), st.sampled_from([0, 0, 1, 2]), st.integers(0, 2))
    op = st.one_of(m, req, req, probe, probe, st.tuples(st.just("wait"), i),
                   st.tuples(st.just("wait"), i), st.tuples(st.just("drop"), i),
                   st.tuples(st.just("dropm"), i),
                   st.tuples(st.just("sleep"), st.one_of(st.integers(0, 20), st.just(64))),
                   st.tuples(st.just("replace"), st.integers(0, 1), st.integers(0, 2)))
    return st.tuples(m, req, gen.sized(op, 2, 14)).map(lambda t: t[:2] + t[2])


def fate():
    return st.one_of(st.just((4,)), st.just((4,)), st.just(()),
                     st.lists(st.integers(1, 80), max_size=2).map(tuple))


def histories(*rest):
    return st.tuples(
        st.tuples(*[st.sampled_from([0, 0, 1, 2])] * 3), ops(),
        st.one_of(st.just(()), st.lists(fate(), max_size=5).map(tuple)), *rest)


def churn():
    """A host whose agent is replaced many times while few requests are under way."""
    def build(t):
        serves, given, reqs, engines, naps, script, tail = t
        ops = [("manager", 0, 0, given)]
        ops += [("req", 0, level, 6400, 16, behave) for level, behave in reqs]
        for i, e in enumerate(engines):
            ops += [("sleep", naps[i % len(naps)]), ("replace", 0, e % len(serves))]
        return (serves, tuple(ops) + tail, script)

    i = st.integers(0, 5)
    probe = st.tuples(st.just("probe"), st.integers(0, 11), st.integers(0, 2))
    tail = st.one_of(probe, probe, st.tuples(st.just("wait"), i), st.tuples(st.just("drop"), i),
                     st.tuples(st.just("sleep"), st.integers(0, 64)),
                     st.tuples(st.just("manager"), st.sampled_from([0, 1]), st.just(0),
                               st.sampled_from([0, 1])))
    return st.tuples(
        gen.sized(st.sampled_from([1, 1, 1, 0, 2]), 4, 12), st.sampled_from([0, 0, 0, 1]),
        gen.sized(st.tuples(st.sampled_from([0, 0, 1, 3]), st.sampled_from([-1, -1, 0])), 1, 3),
        gen.pick(st.permutations(range(12)), st.lists(st.integers(0, 11), min_size=3, max_size=20)),
        gen.sized(st.integers(8, 40), 1, 3),
        st.one_of(st.just(()), st.just(()), st.lists(fate(), max_size=5).map(tuple)),
        st.lists(tail, max_size=8).map(tuple)).map(build)


SUBS = [Sub("churn", churn, run, 500),
        Sub("histories", lambda: histories(), run, 3600),
        Sub("threads", lambda: histories(gen.schedules()), run, 2000)]
