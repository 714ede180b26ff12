"""G09: requests that have ended leave nothing behind."""
import gc
import sys
import types
import weakref

from hypothesis import strategies as st

from harness import gen, ref, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import U, VERSIONS, Engine, Req

RULE = ("a generated round of requests (v1, v2c, v3; answered, answered twice or late, refused, "
        "reported, lost, never answered; collected, or dropped before or after the end; stray "
        "datagrams in between; some on managers that live for that round only) is repeated on the same engine; the number of objects reachable from "
        "the engine, its managers and the library's modules may not grow with the number of rounds, "
        "and no ended request's id stays taken.  Non-trivial = a round has a request that did not "
        "simply succeed")
ASSUMPTIONS = ["each round ends after the deadline of all its requests, with one more request that "
               "is waited for on each manager: entries of ended requests may stay until then",
               "what is kept per engine id seen in unauthenticated messages is not bounded here: "
               "strays name engines in use"]

WARM, ROUNDS = 3, 8
OPAQUE = (types.ModuleType, types.FrameType, types.BuiltinFunctionType, types.CodeType, str, bytes,
          int, float)


def library_roots():
    return [vars(m) for name, m in list(sys.modules.items())
            if m is not None and (name == "snmp" or name.startswith("snmp."))]


def footprint(roots):
    """Objects reachable from the roots without passing through the harness or other modules."""
    seen, stack = {}, list(roots)
    count = {}
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        kind = type(x)
        if isinstance(x, type):
            if x.__module__.split(".")[0] == "snmp":
                stack.append(dict(vars(x)))
            continue
        if isinstance(x, OPAQUE) or kind.__module__.split(".")[0] == "harness":
            if kind.__module__.split(".")[0] != "harness" and not isinstance(x, OPAQUE[:4]):
                count[kind.__name__] = count.get(kind.__name__, 0) + 1
            continue
        count[kind.__name__] = count.get(kind.__name__, 0) + 1
        if kind is types.FunctionType:
            if (x.__module__ or "").split(".")[0] == "harness":
                continue
            stack.extend(filter(None, (x.__closure__, x.__defaults__, x.__kwdefaults__)))
            continue
        stack.extend(gc.get_referents(x))
    return count


class Run:
    def __init__(self, case, ctx, world):
        users, managers, self.round, self.noise, guests = case
        self.ctx, self.world = ctx, world
        self.users = [uc.make(u) for u in users]
        self.engine = Engine(autowait=False)
        for u in self.users:
            uc.add_user(self.engine.usm, u)
        self.managers = []
        self.serial = 0
        self.behave = {}
        self.last = {}
        world.on_send = self.on_send
        for i, (version, given) in enumerate(managers):
            address = ("10.9.0.%d" % i, 161)
            agent, kw = None, {}
            if version == 3:
                agent = mgr.Agent(world, b"\x80\x00\x1f\x88\x04g09-%d" % i, self.users, 3, 500)
                agent.answer = self.answer
                if given:
                    kw = {"engineID": agent.engine}
            else:
                kw = {"version": VERSIONS[version], "community": b"c%d" % i}
            self.managers.append((self.engine.Manager(address, **kw), version, address, agent))
        # managers that are created anew in each round
        self.guests = []
        for version, given, requests in guests:
            address = ("10.9.1.%d" % len(self.guests), 161)
            agent, kw = None, {"version": VERSIONS[version],
                               "community": b"c%d" % len(self.managers)}
            if version == 3:
                agent = mgr.Agent(world, b"\x80\x00\x1f\x88\x04guest%d" % len(self.guests),
                                  self.users, 3, 500)
                agent.answer = self.answer
                kw = {"engineID": agent.engine} if given else {}
            self.guests.append((address, version, agent, kw, requests))

    def guest(self, address, version, agent, kw, requests):
        self.managers.append((self.engine.Manager(address, **kw), version, address, agent))
        for spec, fate in requests:
            handle = self.request(len(self.managers) - 1, *spec[1:])
            if fate[0] == "drop":
                self.world.sleep(fate[1] * U)
            else:
                got = mgr.outcome(handle.wait)[0]
                self.outcomes.add(got)
                self.ctx.label("guest: " + got)
            del handle
        self.world.sleep(800 * U)
        self.managers.pop()

    def answer(self, o, pdu, user):
        status = self.behave[mgr.index_of(pdu)][0] == "refuse"
        return ("resp", pdu[1], 5 if status else 0, 1 if status else 0, pdu[4])

    def on_send(self, transport, address, data):
        i = next(n for n, m in enumerate(self.managers) if m[2] == address)
        _, version, _, agent = self.managers[i]
        index, probe = None, False
        if version == 3:
            o = ur.Opened(data)
            user = next((u for u in self.users if u.name == o.user), None)
            pdu = o.scoped(user)[2]
            probe = not o.engine
            reply = lambda: agent.process(data)
        else:
            pdu = mgr.parse_community(data)[2]
            def reply():
                status = how == "refuse"
                return ref.enc_community(version, b"c%d" % i, (
                    "resp", pdu[1], 5 if status else 0, 1 if status else 0, pdu[4]))
        index = mgr.index_of(pdu)
        how, delay, n = self.behave[index] if index is not None else ("answer", 4, 0)
        self.last[i] = data
        if how == "silent":
            return
        if how == "lost first":
            self.behave[index] = ("answer", delay, n)
            return
        if how == "report" and version == 3:
            reply = lambda: agent.report(o, (mgr.UNKNOWNUSER, mgr.DECRYPTION, mgr.WRONGDIGEST,
                                             mgr.NOTINTIME, mgr.UNKNOWNENGINE)[n % 5], pdu[1],
                                         user, o.level if n % 2 else 0)
        if how == "both" and version == 3:  # a report, and a response all the same
            self.world.after(delay * U, lambda: self.deliver(transport, address, agent.report(
                o, (mgr.UNKNOWNUSER, mgr.DECRYPTION)[n % 2], pdu[1], user, 0)))
            delay += n
        for k in range(2 if how == "twice" else 1):
            self.world.after((delay + 3 * k) * U, lambda: self.deliver(transport, address, reply()))

    def deliver(self, transport, address, data):
        if data is not None:
            self.world.hear(transport, address, data)

    def request(self, i, kind, timeout, period, behave, ui, level):
        m, version, _, agent = self.managers[i % len(self.managers)]
        if kind == "bulk" and version == 0:
            kind = "get"
        self.serial = self.serial % 100000 + 1
        self.behave[self.serial] = behave
        extra = {}
        if version == 3:
            u = self.users[ui % len(self.users)]
            extra = {"user": u.name, "securityLevel": uc.level(level & u.level)}
        name = mgr.ARC + (self.serial,)
        try:
            return mgr.call(m, kind, ((name, ("int", 1)),), bulk=(0, 2), timeout=timeout * U,
                            refreshPeriod=period * U, **extra)
        finally:
            del m

    def stray(self, i, what):
        _, version, address, agent = self.managers[i % len(self.managers)]
        data = self.last.get(i % len(self.managers))
        if data is None:
            return
        self.ctx.label("stray " + what)
        if what == "echo":
            pass
        elif what == "garbage":
            data = b"\x30\x03\x02\x01\x07"
        elif what == "cut":
            data = data[:len(data) // 2]
        elif version == 3:                  # a response with an id that is not pending
            scoped = ref.enc_scoped(agent.engine, b"", ("resp", 1, 0, 0, ()))
            data = agent.seal(12345, 0, None, scoped, name=b"")
        else:
            data = ref.enc_community(version, b"c%d" % i, ("resp", 12345, 0, 0, ()))
        self.world.hear(self.world.transports[-1], address, data)

    def play(self):
        held = []
        self.behave.clear()
        for i, what in self.noise[:1]:
            self.stray(i, what)
        for spec, fate in self.round:
            handle = self.request(*spec)
            if fate[0] == "drop":
                self.world.sleep(fate[1] * U)
                del handle
            elif fate[0] == "wait":
                got = mgr.outcome(handle.wait)[0]
                self.outcomes.add(got)
                del handle
            else:
                held.append((handle, fate))
                del handle
        for i, what in self.noise[1:]:
            self.stray(i, what)
        while held:
            handle, fate = held.pop(fate_index(held))
            if fate[0] == "later":
                self.outcomes.add(mgr.outcome(handle.wait)[0])
            del handle
        for guest in self.guests:
            self.guest(*guest)
        self.world.sleep(800 * U)
        for i in range(len(self.managers)):
            # the housekeeping request
            handle = self.request(i, "get", 640, 64, ("answer", 2, 0), 0, 3)
            got = mgr.outcome(handle.wait)
            require(got[0] == "ok", "housekeeping request on manager {}: {}", i, got)
            del handle
        self.world.sleep(800 * U)

    def measure(self):
        gc.collect()
        return footprint([vars(self.engine)] + [vars(m[0]) for m in self.managers]
                         + library_roots())


def fate_index(held):
    return len(held) // 2


def run(case, ctx):
    gc.freeze()
    try:
        with sim.Simulation() as world:
            s = Run(case, ctx, world)
            s.outcomes = set()
            for _ in range(WARM):
                s.play()
            before = s.measure()
            for _ in range(ROUNDS):
                s.play()
            after = s.measure()
            grown = sum(after.values()) - sum(before.values())
            more = {k: n - before.get(k, 0) for k, n in after.items() if n > before.get(k, 0)}
            for x in s.outcomes:
                ctx.label("outcome: " + x)
            ctx.label(*("v%d" % m[1] for m in s.managers))
            ctx.nontrivial(s.outcomes != {"ok"})
            require(grown < ROUNDS, "after {} more rounds of {} request(s) the library holds on to "
                    "{} more objects: {}", ROUNDS, len(s.round) + len(s.managers), grown,
                    sorted(more.items()))
            s.engine.shutdown()
    finally:
        gc.unfreeze()


def cases():
    how = st.sampled_from(["answer", "answer", "silent", "refuse", "twice", "lost first", "report",
                           "report", "both"])
    behave = st.tuples(how, st.sampled_from([0, 2, 4, 20, 70, 300]), st.integers(0, 9))
    spec = st.tuples(st.integers(0, 2), st.sampled_from(["get", "next", "set", "bulk"]),
                     st.sampled_from([8, 64, 64, 200]), st.sampled_from([16, 64, 64, 300]), behave,
                     st.integers(0, 1), st.sampled_from([0, 1, 3, 3]))
    fate = st.one_of(st.just(("wait",)), st.just(("later",)), st.just(("unread",)),
                     st.tuples(st.just("drop"), st.sampled_from([0, 0, 1, 5, 70])))
    users = st.sampled_from([1, 2]).flatmap(lambda n: st.tuples(*[
        uc.user_spec(b"user%d" % i, 1) for i in range(n)]))
    stray = st.tuples(st.integers(0, 2), st.sampled_from(["echo", "garbage", "cut", "unknown id"]))
    return st.tuples(users,
                     st.lists(st.tuples(st.sampled_from([0, 1, 3, 3]), st.booleans()), min_size=1,
                              max_size=3).map(tuple),
                     gen.sized(st.tuples(spec, fate), 1, 5).map(tuple),
                     st.lists(stray, max_size=3).map(tuple),
                     st.lists(st.tuples(st.sampled_from([0, 1, 3, 3]), st.booleans(),
                                        gen.sized(st.tuples(spec, fate), 0, 3)),
                              max_size=2).map(tuple))


SUBS = [Sub("rounds", cases, run, 2800)]
