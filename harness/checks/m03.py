"""M03: no datagram can stop the listener or affect unrelated requests."""
import random
import time as real_time

from hypothesis import strategies as st

from harness import gen, mutate, ref, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import ARC, U, VERSIONS, Engine, Req

RULE = ("histories: v1, v2c and v3 requests in flight while datagrams that answer none of them "
        "arrive (random bytes, damaged and mutated valid messages of every version, near-miss "
        "responses, reflected requests, damaged copies of genuine messages) from any source on any "
        "socket; the whole trace must equal that of the same history without them.  work: datagrams "
        "up to 65507 octets built to be expensive.  Non-trivial = a well-formed or nearly "
        "well-formed stray datagram arrived while a request was pending")
ASSUMPTIONS = ["unauthenticated v3 messages that name an engine in use are left to G04/G05/S05",
               "the manager at which hostile messages with the id of a pending message are "
               "aimed is not judged (G04/G05 do that), only all others",
               "cost is bounded by 5 s of CPU per datagram"]

VKINDS = tuple(ref.PDU_IDENT)
COMMUNITIES = [b"public", b"private"]


class Run:
    """One execution of a scenario; with or without the stray datagrams."""

    def __init__(self, case, ctx, world, noisy):
        (users, managers, ops, self.delays, noise) = case
        self.ctx, self.world, self.noisy = ctx, world, noisy
        self.attack = any(what[0] == "hostile" for _, what in noise)
        self.users = [uc.make(u) for u in users]
        self.engine = Engine(autowait=False)
        for u in self.users:
            uc.add_user(self.engine.usm, u)
        self.managers, self.reqs, self.trace, self.seen = [], [], [], []
        self.rids, self.msgids, self.aimed = set(), set(), []
        self.sends, self.hits = {}, 0
        world.on_send = self.on_send
        for i, (version, community, given) in enumerate(managers):
            address = ("10.7.0.%d" % i, 161)
            if version == 3:
                engine = b"\x80\x00\x1f\x88\x04m03-%d" % i
                agent = mgr.Agent(world, engine, self.users, 2, 1000)
                agent.answer = lambda o, pdu, user: ("resp", pdu[1], 0, 0, pdu[4])
                m = self.engine.Manager(address, **({"engineID": engine} if given else {}))
            else:
                agent = None
                m = self.engine.Manager(address, version=VERSIONS[version],
                                        community=COMMUNITIES[community])
            self.managers.append((m, version, COMMUNITIES[community], address, agent))
        if noisy:
            for when, what in noise:
                world.after(when * U, lambda w=what: self.stray(*w))

    def on_send(self, transport, address, data):
        self.trace.append((self.world.now, transport.local, address, data))
        m, version, community, _, agent = next(x for x in self.managers if x[3] == address)
        self.seen.append(data)
        if address == self.managers[0][3]:
            self.aimed.append(data)
        if version == 3:
            self.msgids.add(ur.Opened(data).id)
        else:
            v, c, pdu = mgr.parse_community(data)
            self.rids.add((v, c, pdu[1]))
        # each agent has its own rhythm, as an attack may cause datagrams to one of them
        n = self.sends[address] = self.sends.get(address, -1) + 1
        delay = self.delays[n % len(self.delays)] if self.delays else 4
        if delay:
            self.world.after(delay * U, lambda: self.arrive(transport, address, agent, data))

    def arrive(self, transport, address, agent, data):
        if agent is None:
            version, community, pdu = mgr.parse_community(data)
            reply = ref.enc_community(version, community, ("resp", pdu[1], 0, 0, pdu[4]))
        else:
            reply = agent.process(data)
        if reply is not None:
            self.seen.append(reply)
            self.world.hear(transport, address, reply)

    # stray datagrams
    def neutral(self, data):
        """Does it, by its contents, concern no request?"""
        verdict, value = ref.attempt(lambda r: r.community(data, ("resp",)))
        if verdict != "reject":
            version, community, pdu = value
            self.kind = "stray response v%d" % version
            return (version, community, pdu[1]) not in self.rids
        verdict, value = ref.attempt(lambda r: r.community(data, VKINDS))
        if verdict != "reject":
            self.kind = "community message"
            return True
        verdict, value = ref.attempt(lambda r: r.v3(data, VKINDS))
        if verdict == "reject":
            self.kind = "malformed"
            return True
        (msgid, _, flags, _), usm, payload = value
        try:
            o = ur.Opened(data)
        except (ref.Reject, AssertionError):
            self.kind = "malformed usm"
            return True
        self.kind = "v3 level %d" % o.level
        if o.level == 0:
            return (msgid not in self.msgids and
                    o.engine not in [x[4].engine for x in self.managers if x[4]])
        user = next((u for u in self.users if u.name == o.user), None)
        return user is None or not user.level or not o.authentic(user)

    def stray(self, kind, payload, i, source, sock):
        if kind == "copy":
            if not self.seen:
                return
            data = self.edit(self.seen[i % len(self.seen)], payload)
        elif kind == "raw":
            data = payload
        elif kind == "hostile":
            data = self.hostile(payload, i)
        else:
            data = self.near(payload, i)
        if data is None:
            return
        if kind == "hostile":
            self.kind = "hostile"
        elif not self.neutral(data):
            self.ctx.label("left out")
            return
        self.ctx.label(self.kind)
        pending = any(not r.results for r in self.reqs)
        if pending and (kind != "raw" or self.kind != "malformed"):
            self.hits += 1
        address = self.managers[source % len(self.managers)][3]
        if source > 5:
            address = ("203.0.113.7", 4242)
        transports = self.world.transports
        self.world.hear(transports[sock % len(transports)], address, data)

    def edit(self, data, edits):
        data = bytearray(data)
        for op, at, value in edits:
            if not data:
                break
            at %= len(data)
            if op == 0:
                data[at] ^= 1 << value % 8
            elif op == 1:
                data[at] = value
            elif op == 2:
                del data[at]
            elif op == 3:
                data.insert(at, value)
            elif op == 4:
                del data[at:]
            elif op == 5:
                data += bytes([value]) * (at % 5 + 1)
            elif op == 6:               # another version
                at = 4 if len(data) < 2 or data[1] < 128 else 4 + data[1] % 128
                if at < len(data):
                    data[at] = value % 5
        return bytes(data)

    def near(self, how, i):
        """A well-formed message that resembles the response to the i-th datagram."""
        if not self.seen:
            return None
        data = self.seen[i % len(self.seen)]
        what, delta = how
        try:
            o = ur.Opened(data)
        except ref.Reject:
            version, community, pdu = ref.Reader().community(data, VKINDS)
            kind, rid, vbs = "resp", pdu[1], pdu[4]
            if what == 0:
                rid = (rid + delta + 2**31) % 2**32 - 2**31
            elif what == 1:
                version = 1 - version
            elif what == 2:
                community = community + b"x" * (delta % 3 + 1)
            elif what == 3:
                community = community[:-1]
            elif what == 4:
                kind = ("get", "next", "set", "inform", "trap2", "report")[delta % 6]
            elif what == 5:
                community = COMMUNITIES[delta % 2]
            else:
                version = 3
            return ref.enc_community(version, community, (kind, rid, 0, 0, vbs))
        user = next((u for u in self.users if u.name == o.user), None)
        engine, context, pdu = o.scoped(user)
        kind = "report" if what == 4 else "resp"
        pdu = (kind, pdu[1], 0, 0, pdu[4] or ((mgr.UNKNOWNENGINE, ("c32", 1)),))
        msgid = (o.id + delta) % 2**31 if what < 5 else o.id
        level = (o.level, 0, 1, 3)[delta % 4]
        if what % 2:
            engine = engine + b"?"
        liar = ur.User(o.user, user.auth if user and user.auth else "md5", b"wrong password", "aes",
                       b"wrong password")
        return ur.seal(msgid, level, engine, o.boots, o.time, liar,
                       ref.enc_scoped(engine, context, pdu), name=o.user)

    def hostile(self, how, i):
        """An unauthenticated message, or a badly authenticated one, about a message that the first
        manager has sent."""
        kind, vbs, level, whose, names, boots, etime, error = how
        mine = [o for o in map(ur.Opened, self.aimed) if o.id in self.msgids]
        if not mine:
            return None
        o = mine[-1 - i % len(mine)] if i % 3 else mine[-1]
        engine = (self.managers[0][4].engine, o.engine, b"", b"\x80someone else", b"x" * 40)[whose]
        name, context, scope = names
        name = (o.user, o.user, b"", b"user1", b"\xff\xfe")[name]
        pdu = (kind, error if error > 99 else i, error % 20, error % 3, vbs)
        scoped = ref.enc_scoped((engine, b"", b"else")[context], (b"", b"ctx")[scope], pdu)
        liar = ur.User(name, "md5", b"wrong password", "aes", b"wrong password")
        if level == 3:
            boots, etime = boots % 2**31, etime % 2**31
        return ur.seal(o.id, level, engine, boots, etime, liar, scoped, name=name)

    # caller
    def request(self, which, kind, level, timeout, period, user):
        m, version, community, _, agent = self.managers[which % len(self.managers)]
        r = Req(len(self.reqs), m, kind, timeout * U, period * U)
        kw = {}
        if version == 3:
            u = self.users[user % len(self.users)]
            level &= u.level
            kw = {"user": u.name, "securityLevel": uc.level(0 if level == 2 else level)}
        self.reqs.append(r)
        r.t0 = self.world.now
        value = ("int", r.index) if kind == "set" else ("null",)
        r.handle = mgr.call(m, kind, ((r.name, value),), timeout=r.timeout,
                            refreshPeriod=r.period, **kw)

    def last(self, r):
        """Is it a request under attack?  How long a wait() for it takes is no matter here."""
        return self.attack and r.manager is self.managers[0][0]

    def wait(self, r):
        got = mgr.outcome(r.handle.wait)
        if got[0] == "raised":
            got = ("raised", type(got[1]).__name__, str(got[1]))
        elif got[0] == "error":
            got = got[:2]
        r.results.append(got)
        self.trace.append((self.world.now, r.index, got))


def execute(case, ctx, noisy):
    random.seed(4711)
    with sim.Simulation() as world:
        s = Run(case, ctx, world, noisy)
        for op in case[2]:
            if op[0] == "req":
                s.request(*op[1:])
            elif op[0] == "sleep":
                world.sleep(op[1] * U)
            elif s.reqs and not s.last(s.reqs[op[1] % len(s.reqs)]):
                s.wait(s.reqs[op[1] % len(s.reqs)])
        for r in sorted(s.reqs, key=s.last):
            if not r.results:
                s.wait(r)
        for r in s.reqs:
            r.handle = None
        s.engine.shutdown()
    return s


def run(case, ctx):
    quiet = execute(case, ctx, False)
    noisy = execute(case, ctx, True)
    for i, (a, b) in enumerate(zip(quiet.trace, noisy.trace)):
        require(a == b, "stray datagrams changed what happened: step {} is {} instead of {}", i, b,
                a)
    same(len(noisy.trace), len(quiet.trace), "number of steps with stray datagrams")
    for x in quiet.trace:
        if len(x) == 3:
            ctx.label("outcome " + x[2][0])
    ctx.nontrivial(noisy.hits)


def about(s, entries):
    """The part of a trace that does not concern the first manager, without the message ids and
    salts, which all managers draw from common sources."""
    for x in entries:
        if len(x) == 3:
            if s.reqs[x[1]].manager is not s.managers[0][0]:
                yield x
        elif x[2] != s.managers[0][3]:
            try:
                o = ur.Opened(x[3])
            except ref.Reject:
                yield x
            else:
                user = next((u for u in s.users if u.name == o.user), None)
                yield x[:3] + ((o.level, o.engine, o.boots, o.time, o.user, o.scoped(user)),)


def aimed(case, ctx):
    """Hostile messages about the messages of one v3 manager do not concern the others."""
    quiet = execute(case, ctx, False)
    noisy = execute(case, ctx, True)
    a, b = list(about(quiet, quiet.trace)), list(about(noisy, noisy.trace))
    for i, (x, y) in enumerate(zip(a, b)):
        require(x == y, "messages to another manager changed what happened: step {} is {} instead "
                "of {}", i, y, x)
    same(len(b), len(a), "number of steps with messages to another manager")
    for x in noisy.trace:
        if len(x) == 3:
            ctx.label("outcome " + x[2][0])
    ctx.nontrivial(noisy.hits and a)


def messages():
    """Valid encodings of every version."""
    community = st.tuples(st.integers(0, 1), st.sampled_from(COMMUNITIES), gen.pdus()).map(
        lambda t: ref.enc_community(*t))
    scoped = st.tuples(gen.blobs(12), gen.blobs(8), gen.pdus()).map(lambda t: ref.enc_scoped(*t))
    header = st.tuples(gen.uint31(), gen.ints(484, 65507), st.sampled_from([0, 4, 1, 5, 3, 7]))
    usm = st.tuples(gen.blobs(12), gen.uint31(), gen.uint31(),
                    st.sampled_from([b"", b"user0", b"user1", b"nobody", b"\xff"]),
                    st.sampled_from([b"", bytes(12), b"\x01" * 12, bytes(24), bytes(5)]),
                    st.sampled_from([b"", bytes(8), bytes(7)]))
    v3 = st.tuples(header, usm, scoped).map(lambda t: ref.enc_v3(
        ref.enc_header(*t[0]), ref.enc_usm(*t[1]), ref.enc_oct(t[2]) if t[0][2] & 2 else t[2]))
    return st.one_of(community, v3)


def strays():
    edits = st.lists(st.tuples(st.integers(0, 6), st.integers(0, 300), st.integers(0, 255)),
                     min_size=1, max_size=3).map(tuple)
    copy = st.tuples(st.just("copy"), edits)
    near = st.tuples(st.just("near"), st.tuples(st.integers(0, 6), st.sampled_from(
        [0, 1, 1, 2, 3, -1, -2, 2**30, 256, 65536])))
    raw = st.tuples(st.just("raw"), st.one_of(
        st.binary(max_size=30), mutate.damaged(messages()), mutate.damaged(messages()),
        st.sampled_from([b"", b"0", b"0\x00", b"0\x80", b"0\x03\x02\x01\x00", b"0\x03\x02\x01\x01",
                         b"0\x03\x02\x01\x03", b"0\x03\x02\x01\x02", b"0\x02\x02\x00",
                         b"0\x09\x02\x07" + b"\x7f" * 7, b"\x1f" * 40, b"\x3f\xff" * 20])))
    what = st.one_of(copy, copy, near, near, raw)
    return st.tuples(st.integers(0, 200), st.tuples(what, st.integers(0, 9), st.integers(0, 9),
                                                    st.integers(0, 3)).map(
        lambda t: t[0] + t[1:]))


def ops():
    req = st.tuples(st.just("req"), st.integers(0, 3), st.sampled_from(["get", "next", "set"]),
                    st.sampled_from([0, 1, 3]), st.sampled_from([40, 200, 640]),
                    st.sampled_from([16, 64]), st.integers(0, 1))
    op = st.one_of(req, req, st.tuples(st.just("wait"), st.integers(0, 5)),
                   st.tuples(st.just("sleep"), st.integers(0, 60)))
    return st.tuples(req, gen.sized(op, 0, 5)).map(lambda t: (t[0],) + t[1])


def histories():
    managers = gen.sized(st.tuples(st.sampled_from([0, 1, 3, 3]), st.integers(0, 1),
                                   st.booleans()), 1, 3)
    users = st.tuples(uc.user_spec(b"user0"), uc.user_spec(b"user1"))
    delays = st.one_of(st.just(()), st.lists(st.sampled_from([0, 2, 4, 20, 70]), min_size=1,
                                             max_size=4).map(tuple))
    return st.tuples(users, managers, ops(), delays, gen.sized(strays(), 1, 8))


def attacks():
    name = st.one_of(st.sampled_from([mgr.STATS + (n, 0) for n in range(1, 8)]), gen.oids())
    vbs = st.lists(st.tuples(name, gen.values()), max_size=2).map(tuple)
    odd = st.sampled_from([0, 1, 2, 2**31 - 1, 2**31 - 2, 1000, 150, 2**31, -1, 2**40])
    how = st.tuples(st.sampled_from(["report", "report", "report", "resp", "resp", "get", "trap2",
                                     "inform"]), vbs, st.sampled_from([0, 0, 0, 0, 1, 3]),
                    st.integers(0, 4), st.tuples(st.integers(0, 4), st.integers(0, 2),
                                                 st.sampled_from([0, 0, 0, 1])), odd, odd,
                    st.integers(0, 200))
    stray = st.tuples(st.one_of(st.integers(0, 40), st.integers(0, 700)), st.tuples(
        st.just("hostile"), how, st.integers(0, 9), st.integers(0, 9), st.integers(0, 3)))
    managers = gen.sized(st.tuples(st.sampled_from([0, 1, 3, 3]), st.integers(0, 1),
                                   st.booleans()), 1, 2).map(lambda t: ((3, 0, t[0][2]),) + t)
    users = st.tuples(uc.user_spec(b"user0"), uc.user_spec(b"user1"))
    delays = st.one_of(st.just(()), st.lists(st.sampled_from([0, 2, 4, 20, 70]), min_size=1,
                                             max_size=4).map(tuple))
    first = st.tuples(st.just("req"), st.just(0), st.just("get"), st.sampled_from([0, 1, 3]),
                      st.sampled_from([200, 640]), st.sampled_from([16, 64]), st.integers(0, 1))
    return st.tuples(users, managers, st.tuples(first, ops()).map(lambda t: (t[0],) + t[1]), delays,
                     gen.sized(stray, 1, 8))


# ------------------------------------------------------------------ expensive datagrams
def build(spec):
    kind, size, n, version, msgid = spec
    size = min(size, 65507)

    def cut(data):
        return data[:65507]
    if kind == "nested":
        data = b""
        for _ in range(min(n, 8000)):
            data = ref.tlv(0x30, data)
            if len(data) > size:
                break
        return data
    if kind == "open":
        return (b"0\x80" * (size // 2))
    if kind == "length":
        return b"\x30" + bytes([0x80 | n % 128]) + b"\xff" * size
    if kind == "tag":
        return b"\x3f" + b"\xff" * size
    if kind == "version":
        return ref.enc_seq(ref.tlv(2, b"\x7f" * size))
    if kind == "oid":
        vb = ref.enc_seq(ref.tlv(6, b"\x2b" + bytes([0x80 | n % 128]) * size + b"\x01"),
                         ref.tlv(5, b""))
    elif kind == "oids":
        vb = ref.enc_seq(ref.tlv(6, b"\x2b" * size), ref.tlv(5, b""))
    elif kind == "binds":
        one = ref.enc_varbind(((1, 3, n % 100), ("null",)))
        vb = one * (size // len(one))
    elif kind == "int":
        vb = ref.enc_seq(ref.enc_oid((1, 3)), ref.tlv((2, 0x41, 0x46)[n % 3], b"\x7f" * size))
    else:
        vb = ref.enc_seq(ref.enc_oid((1, 3)), ref.tlv(4, bytes(size)))
    pdu = ref.tlv(0xa2, ref.enc_int(msgid) + ref.enc_int(0) * 2 + ref.tlv(0x30, vb))
    if version == 3:
        scoped = ref.enc_seq(ref.enc_oct(b""), ref.enc_oct(b""), pdu)
        usm = ref.enc_usm(b"\0" * 5, 1, 1, b"", b"", b"")
        return ref.enc_v3(ref.enc_header(msgid, 65507, 0), usm, scoped)
    return ref.enc_seq(ref.enc_int(version), ref.enc_oct(b"public"), pdu)


def work(case, ctx):
    with sim.Simulation() as world:
        engine = Engine(autowait=False)
        uc.add_user(engine.usm, ur.User(b"user0"))
        ms = [engine.Manager("10.8.0.1", version=VERSIONS[v],
                             **({} if v == 3 else {"community": b"public"})) for v in (0, 1, 3)]
        for spec in case:
            data = build(spec)[:65507]
            ctx.label(spec[0])
            start = real_time.process_time()
            world.hear(world.transports[0], ("10.8.0.1", 161), data)
            took = real_time.process_time() - start
            require(took < 5, "a {} datagram of {} octets occupied the listener for {} s", spec[0],
                    len(data), round(took, 1))
        ctx.nontrivial()
        r = ms[1].get("1.3.6.1", timeout=2.0)
        _, transport, address, data, _ = world.sent[-1]
        version, community, pdu = mgr.parse_community(data)
        reply = ref.enc_community(version, community, ("resp", pdu[1], 0, 0, pdu[4]))
        world.after(4 * U, lambda: world.hear(transport, address, reply))
        same(mgr.outcome(r.wait)[0], "ok", "a request made afterwards")
        engine.shutdown()


def works():
    spec = st.tuples(st.sampled_from(["nested", "open", "length", "tag", "version", "oid", "oids",
                                      "binds", "int", "octets"]),
                     st.one_of(st.integers(0, 65000), st.sampled_from([65000, 60000, 1400])),
                     st.integers(0, 10000), st.sampled_from([0, 1, 3]), gen.uint31())
    return gen.sized(spec, 1, 3)


SUBS = [Sub("histories", histories, run, 5000), Sub("hostile", attacks, aimed, 3000),
        Sub("work", works, work, 320)]
