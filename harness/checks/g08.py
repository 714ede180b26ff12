"""G08: managers of one engine may be used from different threads."""
from hypothesis import strategies as st

from harness import gen, mgr, ref, sim, usmconf as uc, usmref as ur
from harness.api import Sub, require, same
from harness.mgr import U, VERSIONS, Engine, Req

from snmp.exception import SNMPException
from snmp.message.v1 import SNMPv1MessageProcessor
from snmp.message.v2c import SNMPv2cMessageProcessor
from snmp.message.v3 import SNMPv3MessageProcessor
from snmp.utils import NumberGenerator

RULE = ("one engine, 2-4 threads each with exclusive use of its own v1/v2c/v3 managers (shared "
        "communities, users and namespaces), the engine itself used from the first thread "
        "(further users and managers), the listening thread, and a generated schedule that switches "
        "between all of them at any line or synchronization point; delays, loss, duplication; "
        "non-trivial = at least two switches and two threads with requests")
ASSUMPTIONS = ["a manager is used by one thread, the engine by one thread, as documented",
               "agents conform; a switch can occur between lines and at synchronization calls, not "
               "within a line"]

COMMUNITIES = [b"public", b"private"]


class Run:
    def __init__(self, case, ctx, world):
        users, self.scripts, self.fates, schedule = case
        self.ctx, self.world = ctx, world
        self.users = [uc.make(u) for u in users]
        self.engine = Engine(autowait=False)
        for u in self.users:
            uc.add_user(self.engine.usm, u)
        self.reqs, self.managers, self.agents = [], [], {}
        self.sends = self.serial = 0
        self.lossless = all(self.fates)
        self.salts, self.pending_ids = set(), {}
        world.on_send = self.on_send
        # each script: (managers, operations)
        self.threads = [[self.manager(spec) for spec in managers] for managers, _ in self.scripts]

    def manager(self, spec):
        version, x, given = spec
        n = len(self.agents)
        address = ("10.9.0.%d" % n, 161)
        kw, agent = {}, None
        if version == 3:
            engine = b"\x80\x00\x1f\x88\x04g08-%d" % n
            agent = mgr.Agent(self.world, engine, self.users, 1 + x, 1000)
            agent.answer = self.answer
            if given:
                kw["engineID"] = engine
        else:
            kw = {"version": VERSIONS[version], "community": COMMUNITIES[x % 2]}
        self.agents[address] = agent
        m = self.engine.Manager(address, **kw)
        entry = (m, version, COMMUNITIES[x % 2], address)
        self.managers.append(entry)
        return entry

    # the network
    def answer(self, o, pdu, user):
        r = self.reqs[mgr.index_of(pdu)]
        same(user.name, r.user, f"user of request {r.index}")
        same(o.level, r.level, f"security level of request {r.index}")
        self.serial += 1
        return self.reply(r, pdu)

    def reply(self, r, pdu):
        status = r.behave
        values = tuple((vb[0], ("int", self.serial * 1000 + i)) for i, vb in enumerate(pdu[4]))
        return ("resp", pdu[1], status, 1 if status else 0, pdu[4] if status else values)

    def on_send(self, transport, address, data):
        agent = self.agents[address]
        if agent is None:
            version, community, pdu = mgr.parse_community(data)
            r = self.reqs[mgr.index_of(pdu)]
            same((version, community, pdu[0]), (r.version, r.community, r.kind),
                 f"version, community and operation of request {r.index}")
            key = (version, pdu[1])
        else:
            o = ur.Opened(data)
            key = (3, o.id)
            if o.flags & 2:
                salt = (o.engine, o.user, o.salt)
                require(salt not in self.salts, "the salt {} of user {} was used twice", o.salt,
                        o.user)
                self.salts.add(salt)
            user = next((u for u in self.users if u.name == o.user), None)
            pdu = o.scoped(user)[2]
            r = self.reqs[mgr.index_of(pdu)] if pdu[4] else None
        if r is not None:
            same(address, r.address, f"address that request {r.index} was sent to")
            other = self.pending_ids.get(key)
            if other is not None and other is not r and other.open:
                require(False, "requests {} and {} of different threads are pending under the same "
                        "id {}", other.index, r.index, key[1])
            self.pending_ids[key] = r
            r.sent.append(self.world.now)
        fate = self.fates[self.sends % len(self.fates)] if self.fates else (2,)
        self.sends += 1
        for delay in fate:
            self.world.after(delay * U, lambda d=delay: self.arrive(transport, address, data, d))

    def arrive(self, transport, address, data, delay):
        agent = self.agents[address]
        if agent is None:
            version, community, pdu = mgr.parse_community(data)
            self.serial += 1
            reply = self.reply(self.reqs[mgr.index_of(pdu)], pdu)
            self.world.after(delay * U, lambda: self.deliver(
                transport, address, reply, ref.enc_community(version, community, reply)))
        else:
            count = len(agent.log)
            message = agent.process(data)
            if message is None:
                return
            reply = None
            if agent.log[count][0] == "request":
                o = ur.Opened(message)
                reply = o.scoped(next(u for u in self.users if u.name == o.user))[2]
            self.world.after(delay * U, lambda: self.deliver(transport, address, reply, message))

    def deliver(self, transport, address, pdu, data):
        if pdu is not None:
            r = next(q for q in self.reqs if mgr.index_of(pdu) == q.index)
            if r.open:
                r.answers.append((self.world.now, pdu))
        self.world.hear(transport, address, data)

    # the threads
    def caller(self, number):
        managers, mine = self.threads[number], []
        for op in self.scripts[number][1]:
            if op[0] == "req":
                mine.append(self.request(managers, *op[1:]))
            elif op[0] == "sleep":
                self.world.sleep(op[1] * U)
            elif op[0] == "engine":
                if number == 0:         # all accesses to the engine happen on one thread
                    managers.append(self.configure(op[1]))
            elif mine:
                r = mine[op[1] % len(mine)]
                if op[0] == "wait" and r.handle is not None:
                    self.wait(r)
                elif op[0] == "drop":
                    r.open = False
                    r.handle = None
        for r in mine:
            if r.handle is not None and not r.results:
                self.wait(r)
        for r in mine:
            r.handle = r.manager = None
        self.threads[number] = None

    def configure(self, x):
        if x % 2:
            user = ur.User(b"late%d" % len(self.users), "md5", b"maplesyrup", "aes", b"maplesyrup")
            uc.add_user(self.engine.usm, user)
            self.users.append(user)
            for agent in self.agents.values():
                if agent is not None:
                    agent.users[user.name] = user
        return self.manager(((0, 1, 3, 3)[x % 4], x % 2, bool(x & 8)))

    def request(self, managers, which, kind, ui, level, timeout, period, behave):
        m, version, community, address = managers[which % len(managers)]
        r = Req(len(self.reqs), m, kind, timeout * U, period * U)
        r.version, r.community, r.address, r.behave = version, community, address, behave
        kw = {}
        if version == 3:
            user = self.users[min(ui, len(self.users) - 1)]
            r.user, r.level = user.name, level & user.level
            if r.level == 2:
                r.level = 3
            kw = {"user": r.user, "securityLevel": uc.level(r.level)}
        self.reqs.append(r)
        r.vbs = ((r.name, ("int", r.index) if kind == "set" else ("null",)),)
        r.t0 = self.world.now
        r.handle = mgr.call(m, kind, r.vbs, timeout=r.timeout, refreshPeriod=r.period, **kw)
        r.t1 = self.world.now
        return r

    def wait(self, r):
        got = mgr.outcome(r.handle.wait)
        again = bool(r.results)
        r.results.append(got[:2])
        r.open = False
        what = f"request {r.index} (version {r.version})"
        if again:
            return
        self.ctx.label("outcome: " + got[0])
        if got[0] == "raised":
            require(False, "{} raised {}: {}", what, type(got[1]).__name__, got[1])
        allowed = [("error", pdu[2]) if pdu[2] else ("ok", pdu[4]) for _, pdu in r.answers]
        if got[0] != "timeout":
            require(got[:2] in allowed, "{} returned {}; its responses were {}", what, got[:2],
                    allowed)
        else:
            late = r.t0 + r.timeout
            require(all(t >= late for t, _ in r.answers), "{} timed out although its response had "
                    "arrived {} s before", what, late - (r.answers or [(0,)])[0][0])
            require(not self.lossless or r.timeout < 10 or self.world.hurries > 20, "{} timed out although nothing was lost; "
                    "it was sent at {} s", what, [t - r.t0 for t in r.sent])


def run(case, ctx):
    with sim.Simulation((), (), case[3]) as world:
        s = Run(case, ctx, world)
        others = [world.spawn(f"caller {i}", lambda n=i: s.caller(n))
                  for i in range(1, len(case[1]))]
        s.caller(0)
        world.join(others)
        s.managers.clear()
        s.engine.shutdown()
        busy = {r.address for r in s.reqs}
        ctx.label(f"switches {min(world.switches, 5)}", f"threads {len(case[1])}")
        ctx.nontrivial(world.switches > 1 and len(busy) > 1)


def managers():
    return st.lists(st.tuples(st.sampled_from([0, 1, 1, 3, 3, 3]), st.integers(0, 1),
                              st.booleans()), min_size=1, max_size=2).map(tuple)


def ops(configuring=False):
    req = st.tuples(st.just("req"), st.integers(0, 2), st.sampled_from(["get", "next", "set"]),
                    st.sampled_from([0, 1, 9]), st.sampled_from([0, 1, 3, 3]),
                    st.sampled_from([64, 640, 640, 640]), st.sampled_from([4, 16, 64, 64]),
                    st.sampled_from([0, 0, 0, 5]))
    i = st.integers(0, 3)
    sleep = st.tuples(st.just("sleep"), st.sampled_from([1, 2, 3, 4, 8, 64]))
    op = st.one_of(req, req, st.tuples(st.just("wait"), i), st.tuples(st.just("wait"), i),
                   st.tuples(st.just("drop"), i), sleep)
    if configuring:
        engine = st.tuples(st.just("engine"), st.integers(0, 15))
        return gen.sized(st.one_of(op, sleep, engine, engine), 1, 6)
    return st.tuples(req, gen.sized(op, 0, 5)).map(lambda t: (t[0],) + t[1])


def fates():
    one = st.one_of(st.just((2,)), st.just((2,)), st.integers(0, 8).map(lambda d: (d,)),
                    st.lists(st.integers(0, 8), max_size=2).map(tuple))
    return st.one_of(st.just(()), st.lists(one, min_size=1, max_size=5).map(tuple))


def cases():
    users = st.tuples(uc.user_spec(b"user0"), uc.user_spec(b"user1", 1))
    first = st.tuples(managers(), st.booleans().flatmap(ops))
    scripts = st.tuples(first, gen.sized(st.tuples(managers(), ops()), 1, 3)).map(
        lambda t: (t[0],) + t[1])
    return st.tuples(users, scripts, fates(), gen.schedules(14))


# ------------------------------------------------------------------ the shared security module
BASE = [ur.User(b"base", "md5", b"maplesyrup", "aes", b"maplesyrup")]
LATE = [ur.User(b"late%d" % i, ("md5", "sha1")[i % 2], b"maplesyrup", ("aes", "des")[i % 2],
                b"maplesyrup") for i in range(3)]


def security(case, ctx):
    """One thread adds users while others bind engines, send and receive, and let go again."""
    adds, scripts, schedule = case
    with sim.Simulation((), (), schedule) as world:
        usm = uc.UserBasedSecurityModule()
        uc.add_user(usm, BASE[0])
        uc.add_user(usm, BASE[0], namespace="other")
        salts, bound = set(), {}

        def message(engine, user, level):
            pdu = uc.GetRequestPDU("1.3.6.1")
            data = uc.outgoing(usm, 7, level, True, pdu, engine, user.name, world.now)
            o = ur.Opened(data)
            same((o.engine, o.user), (engine, user.name), "engine and user of a message")
            require(o.authentic(user), "a message for {} is not authenticated as {}", engine,
                    user.name)
            if level == 3:
                salt = (engine, user.name, o.salt)
                require(salt not in salts, "the salt {} was used twice", salt)
                salts.add(salt)
                o.scoped(user)
            return o

        def caller(n):
            for engine, space, uses, keep in scripts[n]:
                engine = b"\x80\0\0\0usm%d-%d" % (n, engine)
                if engine in bound:
                    continue
                space = ("", "other")[space]
                require(usm.registerRemoteEngine(engine, space), "binding {} was refused", engine)
                bound[engine] = space
                for kind in uses:
                    if kind < 2:
                        message(engine, BASE[0], (1, 3)[kind])
                    else:
                        data = ur.seal(9, 3, engine, 1, 100 + kind, BASE[0], ref.enc_scoped(
                            engine, b"", ("resp", 1, 0, 0, ())))
                        incoming = uc.SNMPv3Message.decode(data)
                        usm.processIncoming(incoming, world.now)
                        same(bytes(incoming.securityName), BASE[0].name, "user of a message")
                if not keep:
                    usm.unregisterRemoteEngine(engine, space)
                    del bound[engine]

        tasks = [world.spawn(f"caller {i}", lambda n=i: caller(n)) for i in range(len(scripts))]
        for i, space in adds:
            try:
                uc.add_user(usm, LATE[i], namespace=("", "other")[space])
            except ValueError:
                require((i, space) in adds[:adds.index((i, space)) + 1], "addUser() failed")
        world.join(tasks)
        for n, script in enumerate(scripts):
            for e, _, _, _ in script:
                engine = b"\x80\0\0\0usm%d-%d" % (n, e)
                if engine not in bound:
                    for space in ("", "other"):
                        require(usm.registerRemoteEngine(engine, space), "{} is still bound",
                                engine)
                        usm.unregisterRemoteEngine(engine, space)
                    continue
                for i, space in set(adds):
                    if ("", "other")[space] == bound[engine]:
                        message(engine, LATE[i], 3)
                        ctx.label("late user")
                message(engine, BASE[0], 3)
        ctx.label(f"switches {min(world.switches, 5)}")
        ctx.nontrivial(world.switches > 1 and bound and adds)


def securities():
    adds = gen.sized(st.tuples(st.integers(0, 2), st.integers(0, 1)), 0, 3)
    use = st.tuples(st.integers(0, 2), st.sampled_from([0, 0, 1]),
                    st.lists(st.integers(0, 3), max_size=2).map(tuple),
                    st.sampled_from([True, True, False]))
    return st.tuples(adds, gen.sized(gen.sized(use, 1, 3), 1, 3), gen.schedules(10))


# ------------------------------------------------------------------ the shared caches
class Handle:
    def __init__(self):
        self.closers, self.got = [], []

    def addCallback(self, func, number):
        self.closers.append((func, number))

    def push(self, message):
        self.got.append(message)

    def finish(self):
        while self.closers:
            func, number = self.closers.pop()
            func(number)


def caches(case, ctx):
    """Threads allocate, match and release message ids of the same message processor."""
    version, width, scripts, schedule = case
    cls = {0: SNMPv1MessageProcessor, 1: SNMPv2cMessageProcessor, 3: SNMPv3MessageProcessor}[version]
    if width:
        cls = type("Narrow", (cls,), {"newGenerator": staticmethod(
            lambda: NumberGenerator(width, signed=version < 3))})
    with sim.Simulation((), (), schedule) as world:
        mp = cls(1472) if version == 3 else cls()
        if version == 3:
            mp.addSecurityModuleIfNeeded(uc.UserBasedSecurityModule())
        held = {}

        def allocate():
            handle = Handle()
            pdu = uc.GetRequestPDU("1.3.6.1")
            args = (b"", b"") if version == 3 else (b"public",)
            try:
                data = bytes(mp.prepareOutgoingMessage(pdu, handle, *args))
            except SNMPException:
                # it may give up when its generator keeps yielding ids that are in use
                require(width, "no id could be allocated")
                return
            if version == 3:
                number = ur.Opened(data).id
            else:
                number = mgr.parse_community(data)[2][1]
            require(number not in held, "id {} is used by two pending requests", number)
            held[number] = handle
            return number

        def reply(number):
            if version == 3:
                scoped = ref.enc_scoped(b"", b"", ("resp", 5, 0, 0, ()))
                return ur.seal(number, 0, b"", 0, 0, ur.User(b""), scoped)
            return ref.enc_community(version, b"public", ("resp", number, 0, 0, ()))

        def caller(n):
            mine = []
            for kind, i in scripts[n]:
                if kind == 0:
                    # keep a quarter of the ids at most: the generator must find a free one
                    number = None if width and len(held) > 2 ** width // 4 else allocate()
                    if number is not None:
                        mine.append(number)
                elif mine and kind == 1:
                    number = mine[i % len(mine)]
                    try:
                        message, handle = mp.prepareDataElements(reply(number))
                    except SNMPException as err:
                        require(False, "the response to pending id {} was refused: {}", number, err)
                    require(handle is held[number], "the response to id {} reached another request",
                            number)
                    del handle
                elif mine:
                    number = mine.pop(i % len(mine))
                    handle = held.pop(number)
                    handle.finish()
                    del handle

        tasks = [world.spawn(f"caller {i}", lambda n=i: caller(n)) for i in range(1, len(scripts))]
        caller(0)
        world.join(tasks)
        ctx.label(f"switches {min(world.switches, 5)}", f"version {version}")
        ctx.nontrivial(world.switches > 1)


def cachings():
    op = st.tuples(st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, 5))
    return st.tuples(st.sampled_from([0, 1, 3]), st.sampled_from([0, 3, 4, 6]),
                     gen.sized(gen.sized(op, 2, 10), 2, 3), gen.schedules(10))


SUBS = [Sub("caches", cachings, caches, 5000), Sub("threads", cases, run, 5000), Sub("security", securities, security, 2400)]
