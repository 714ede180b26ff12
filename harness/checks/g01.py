"""G01: a v1/v2c request returns exactly its own response, whatever the network."""
from hypothesis import strategies as st

from harness import gen, ref, sim, mgr
from harness.api import Sub, require, same, short
from harness.mgr import U, VERSIONS, Engine, Fates, Req

RULE = ("histories of concurrent get/getNext/getBulk/set requests on several v1 and v2c managers "
        "(different agents and communities) in a simulated network with generated loss, "
        "duplication, delay and reordering, forged near-miss responses, sleeps, dropped handles, "
        "repeated and late waits, clock ticks between instructions; non-trivial = at least two "
        "requests, one answered and one that was lost, delayed past another or hit by a forgery")
ASSUMPTIONS = ["agents answer only what they are asked; source addresses are not authenticated",
               "when several matching responses to one request arrive, any of them may be returned",
               "a response that arrives after the deadline but before it is collected may be "
               "returned or not"]

COMMUNITIES = [b"public", b"private", b"", b"publi"]
ADDRESSES = ["10.0.0.1", "10.0.0.2", "10.0.0.3"]
V1KINDS = ("int", "oct", "oid", "ip", "c32", "g32", "tt")


class Run:
    def __init__(self, case, ctx, world):
        self.ctx, self.world = ctx, world
        managers, ops, fates = case[:3]
        self.fates = Fates(fates)
        self.engine = Engine(autowait=False)
        self.managers = []
        for version, community, address in managers:
            m = self.engine.Manager(ADDRESSES[address], version=VERSIONS[version],
                                    community=COMMUNITIES[community])
            self.managers.append((m, version, COMMUNITIES[community], ADDRESSES[address]))
        self.reqs = []
        self.serial = 0
        self.forged = 0
        self.reordered = 0
        world.on_send = self.on_send

    # network and agents
    def on_send(self, transport, address, data):
        version, community, pdu = mgr.parse_community(data)
        r = self.reqs[mgr.index_of(pdu)]
        r.rid = pdu[1]
        r.sent.append((self.world.now, data))
        require(address == (r.address, 161), "request for {} sent to {}", r.address, address)
        for copies in self.fates.next():
            reply = self.respond(r, version, community, pdu)
            for delay in copies:
                self.world.after(delay * U, lambda d=reply: self.deliver(transport, address, d))
        if self.fates.used <= len(self.fates.script) and not any(self.fates.script[self.fates.used - 1]):
            self.ctx.label("lost")

    def respond(self, r, version, community, pdu):
        self.serial += 1
        status, index, values = r.behave
        vbs = [(vb[0], ("int", self.serial)) for vb in pdu[4]]
        more = [(r.name + (n,), v) for n, v in enumerate(values)]
        if status:
            # mostly the request's bindings; now and then none at all (tooBig), or more of them
            vbs = [] if index < 0 else list(pdu[4]) + (more if index > len(pdu[4]) else [])
            index = min(max(index, 0), len(vbs))
            if index > len(pdu[4]):
                self.ctx.label("error index beyond the request")
        elif index < 0 and len(pdu[4]) == 1:
            index, vbs = 0, []
            self.ctx.label("empty response")
        else:
            index = 0
            vbs += more
        return ref.enc_community(version, community, ("resp", pdu[1], status, index, tuple(vbs)))

    def deliver(self, transport, address, data):
        version, community, pdu = ref.Reader().community(data, mgr.REQUESTS)
        for r in self.reqs:
            if (r.open and r.rid == pdu[1] and r.version == version and r.community == community
                    and pdu[0] == "resp"):
                # in time?  The request is known to exist at least since t0
                r.answers.append((self.world.now, pdu))
                if any(len(q.answers) and q.index > r.index for q in self.reqs):
                    self.reordered += 1
                break
        else:
            self.ctx.label("delivered: answers nothing")
        self.world.hear(transport, address, data)

    # caller
    def request(self, which, kind, timeout, period, community, behave):
        m, version, default, address = self.managers[which % len(self.managers)]
        if kind == "bulk" and version == 0:
            kind = "get"
        r = Req(len(self.reqs), m, kind, timeout * U, period * U)
        r.version, r.address = version, address
        r.community = default if community is None else COMMUNITIES[community]
        values = tuple(v for v in behave[2] if version == 1 or v[0] in V1KINDS)
        status = behave[0] if version == 1 else min(behave[0], 5)
        r.behave = (status, behave[1], values)
        self.reqs.append(r)
        extra = {} if community is None else {"community": COMMUNITIES[community]}
        names = [r.name] + [r.name + (n,) for n in range(behave[3])]
        r.vbs = [(o, ("int", 7 + n) if kind == "set" else ("null",)) for n, o in enumerate(names)]
        r.t0 = self.world.now
        r.handle = mgr.call(m, kind, r.vbs, bulk=(1, 3), timeout=r.timeout, refreshPeriod=r.period,
                            **extra)
        r.t1 = self.world.now
        require(r.sent, "request {} was not sent", r.index)
        self.ctx.label("version", f"v{version}")

    def wait(self, r):
        w = self.world
        start, drift = w.now, w.drift
        got = mgr.outcome(r.handle.wait)
        drift = w.drift - drift
        allowed = []
        for when, pdu in r.answers:
            if pdu[2]:
                cause = ("request", pdu[1])
                if pdu[3] > len(r.vbs):
                    cause = pdu[3]
                elif pdu[3]:
                    cause = r.vbs[pdu[3] - 1]
                allowed.append(("error", pdu[2], cause))
            else:
                allowed.append(("ok", pdu[4]))
        if got[0] == "error":
            got = got[:2] + (self.cause(r, got[2]),)
        first = r.answers[0][0] if r.answers else None
        what = f"request {r.index} (wait number {len(r.results) + 1})"
        if got[0] == "raised":
            require(False, "{} raised {}: {}", what, type(got[1]).__name__, got[1])
        if got[0] == "timeout":
            require(first is None or first >= r.t0 + r.timeout, "{} timed out although its response "
                    "arrived {} s before the deadline", what,
                    r.t0 + r.timeout - (first or 0))
            require(w.now >= r.t0 + r.timeout, "{} timed out early", what)
            require(all(x == ("timeout",) for x in r.results),
                    "{} timed out, but had returned {} before", what, r.results)
        else:
            require(got in allowed, "{} returned {}; its responses were {}", what, got, allowed)
            require(w.now <= max(start, first) + drift, "{} returned {} s after its response "
                    "arrived", what, w.now - first)
        end = r.t1 + r.timeout
        require(w.now <= max(start, end) + drift, "{} was blocked until {} s after its deadline",
                what, w.now - end)
        if r.results:
            self.ctx.label("repeated wait")
        elif start >= r.t1 + r.timeout:
            self.ctx.label("late wait, " + got[0])
        r.results.append(got)
        r.open = False
        self.ctx.label("outcome: " + got[0])

    def cause(self, r, cause):
        if type(cause) is int:
            return cause
        if hasattr(cause, "requestID"):
            return ("request", cause.requestID)
        return (tuple(cause.name), mgr.conv.from_value(cause.value))

    def forge(self, i, field, x):
        """A datagram that is right for request i except for one field."""
        if not self.reqs:
            return
        r = self.reqs[i % len(self.reqs)]
        version, community, rid, kind = r.version, r.community, r.rid, "resp"
        if field == "id":
            rid = self.reqs[x % len(self.reqs)].rid if x % 2 else (rid + x) % 2**31
        elif field == "community":
            community = COMMUNITIES[x % 4] if x % 3 else community + b"\0"
        elif field == "version":
            version = 1 - version
        elif field == "kind":
            kind = mgr.REQUESTS[x % 7]
            if kind == "bulk" or version == 0 and kind in ("inform", "trap2", "report"):
                kind = "get"
        elif field == "v3":
            version = 3
        self.serial += 1
        pdu = (kind, rid, 0, 0, ((r.name, ("int", -self.serial)),))
        data = ref.enc_community(version, community, pdu)
        transport = self.world.transports[-1]
        self.forged += 1
        self.ctx.label("forged " + field)
        if version == 3:
            self.world.hear(transport, (r.address, 161), data)
        else:
            self.deliver(transport, (r.address, 161), data)


def run(case, ctx):
    managers, ops, fates, ticks, oversleeps, *schedule = case
    with sim.Simulation([t * U for t in ticks], [t * U for t in oversleeps], *schedule) as world:
        sim_run = Run(case, ctx, world)
        for op in ops:
            kind = op[0]
            if kind == "req":
                sim_run.request(*op[1:])
            elif kind == "sleep":
                world.sleep(op[1] * U)
            elif kind == "forge":
                sim_run.forge(*op[1:])
            elif sim_run.reqs:
                r = sim_run.reqs[op[1] % len(sim_run.reqs)]
                if kind == "wait" and r.handle is not None:
                    sim_run.wait(r)
                elif kind == "drop":
                    r.handle = None
                    r.open = False
                    ctx.label("dropped")
        for r in sim_run.reqs:
            if r.handle is not None and not r.results:
                sim_run.wait(r)
        for i, r in enumerate(sim_run.reqs):
            for q in sim_run.reqs[:i]:
                require(q.rid != r.rid or q.version != r.version or not overlap(q, r),
                        "requests {} and {} share the request id {}", q.index, r.index, r.rid)
        outcomes = {x[0] for r in sim_run.reqs for x in r.results}
        if sim_run.reordered:
            ctx.label("reordered")
        ctx.nontrivial(len(sim_run.reqs) > 1 and "ok" in outcomes and (
            "timeout" in outcomes or sim_run.forged or sim_run.reordered))
        sim_run.engine.shutdown()


def overlap(a, b):
    return a.handle is not None and b.handle is not None and not a.results


def delay():
    return st.one_of(st.integers(0, 8), st.integers(0, 80), st.sampled_from([16, 64, 128, 192]))


def fate():
    copies = st.lists(delay(), min_size=1, max_size=2).map(tuple)
    return st.one_of(st.just(()), delay().map(lambda d: ((d,),)), delay().map(lambda d: ((d,),)),
                     st.lists(copies, max_size=3).map(tuple))


def large():
    """One request with hundreds of bindings, and an error (or none) about any of them."""
    size = st.one_of(st.integers(0, 400), st.sampled_from([126, 127, 128, 254, 255, 256, 257]))
    index = st.integers(-1, 3)
    behave = size.flatmap(lambda n: st.tuples(
        st.sampled_from([0, 1, 5, 5, 17]), st.one_of(index, index.map(lambda i: n + i),
                                                     st.integers(0, n + 4)),
        gen.sized(gen.values(), 0, 2), st.just(n)))
    req = st.tuples(st.just("req"), st.just(0), st.sampled_from(["get", "next", "set", "bulk"]),
                    st.just(64), st.just(64), st.none(), behave)
    return gen.sized(req, 2, 3)


def behave():
    status = st.one_of(st.just(0), st.just(0), st.integers(1, 5), st.integers(1, 18))
    return st.tuples(status, st.integers(-1, 5), gen.sized(gen.values(), 0, 2), st.integers(0, 3))


PERIODS = [4, 16, 64, 64, 65, 100]
TIMEOUTS = [8, 16, 64, 128, 192, 200, 640]


def ops(max_size, least=1):
    req = st.tuples(st.just("req"), st.integers(0, 3), st.sampled_from(["get", "next", "set", "bulk"]),
                    st.sampled_from(TIMEOUTS), st.sampled_from(PERIODS),
                    st.one_of(st.none(), st.none(), st.integers(0, 3)), behave())
    i = st.integers(0, 7)
    op = st.one_of(req, req, st.tuples(st.just("wait"), i), st.tuples(st.just("wait"), i),
                   st.tuples(st.just("sleep"), delay()),
                   st.tuples(st.just("forge"), i, st.sampled_from(
                       ["id", "community", "version", "kind", "v3"]), st.integers(0, 50)),
                   st.tuples(st.just("drop"), i))
    return st.tuples(req, gen.sized(op, least, max_size)).map(lambda t: (t[0],) + t[1])


def ticking():
    return st.one_of(st.just(()), st.just(()),
                     st.lists(st.sampled_from([0, 0, 0, 1, 1, 3, 17, 64]), min_size=1,
                              max_size=5).map(tuple))


def managers():
    return st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(0, 2)),
                    min_size=1, max_size=3).map(tuple)


SUBS = [Sub("histories",
            lambda: st.tuples(managers(), ops(10), st.lists(fate(), max_size=10).map(tuple),
                              ticking(), ticking()), run, 8000),
        Sub("crowd",
            lambda: st.tuples(managers(), ops(50, 12), st.lists(fate(), max_size=30).map(tuple),
                              st.just(()), st.just(())), run, 1200),
        Sub("large",
            lambda: st.tuples(managers(), large(), st.lists(fate(), max_size=3).map(tuple),
                              st.just(()), st.just(())), run, 400),
        Sub("threads",
            lambda: st.tuples(managers(), ops(6), st.lists(fate(), max_size=8).map(tuple),
                              st.just(()), st.just(()), gen.schedules()), run, 5000)]
