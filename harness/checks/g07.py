"""G07: requests carry exactly what the caller and the defaults specify."""
from hypothesis import strategies as st

from harness import conv, gen, ref, sim, mgr, usmconf as uc, usmref as ur
from harness.api import Sub, require, same, short
from harness.mgr import ARC, U, VERSIONS, Engine

from snmp.pdu import VarBind, VarBindList
from snmp.security import SecurityModel
from snmp.smi import OID
from snmp.transport import TransportDomain

RULE = ("engines with generated defaults, users and namespaces, managers of all versions with "
        "generated addresses, communities, users, levels and (possibly invalid) options, and "
        "operations with generated bindings, bulk parameters and per-call overrides, observed on "
        "the wire by an independent agent; non-trivial = at least two different managers sent a "
        "request and an override, a default chain or a refusal was involved")
ASSUMPTIONS = ["an unsatisfiable v3 request of a manager that still has to discover its engine id "
               "may send discovery messages before its error is raised",
               "v1 requests do not contain Counter64 values"]

SPACES = ["", "two", "empty"]
NAMES = [b"alice", b"bob", b"carol", b""]
DOMAINS = {4: TransportDomain.UDP_IPv4, 6: TransportDomain.UDP_IPv6}
COMMUNITIES = [b"public", b"", b"private", b"\xff\x00"]
HOSTS = {4: ["10.6.%d.1", "192.168.%d.9"], 6: ["fd00::%d:1", "2001:db8::%d:9"]}
LOCALS = {4: [None, "", "127.0.0.1", "0.0.0.0", ("127.0.0.1", 5000), ("0.0.0.0", 6000), ("", 6000),
              ("", 0)],
          6: [None, "", "::1", "::", ("::1", 5000), ("::", 6000), ("", 6000), ("", 0)]}
WILD = {4: "0.0.0.0", 6: "::"}
KINDS = ["get", "next", "set", "bulk"]
BADOIDS = ["1.2.x", "3.1.2", "1.40.1", "1.3.6.", "1..3", "1.3.4294967296", "1.3.-1", "iso"]


def normal_local(domain, local):
    if local is None or local == "":
        return (WILD[domain], 0)
    if isinstance(local, str):
        return (local, 0)
    return (local[0] or WILD[domain], local[1])


class Managed:
    pass


class Run:
    def __init__(self, case, ctx, world):
        (engine, users, self.managerspecs, calls) = case
        self.ctx, self.world = ctx, world
        (self.version, self.domain, self.community, self.maxsize, self.autowait) = engine
        self.engine = Engine(defaultVersion=VERSIONS[self.version],
                             defaultDomain=DOMAINS[self.domain],
                             defaultCommunity=COMMUNITIES[self.community],
                             msgMaxSize=self.maxsize, autowait=self.autowait)
        self.users = [{}, {}, {}]       # by namespace: name -> (User, default level)
        self.default = [None, None, None]
        for space, name, spec, default, top in users:
            if NAMES[name] in self.users[space]:
                continue
            user = ur.User(NAMES[name], *spec[1:])
            kw = {}
            levels = [b for b in (0, 1, 3) if not b & ~user.level]
            chosen = user.level
            if top is not None:
                chosen = levels[top % len(levels)]
                kw["defaultSecurityLevel"] = uc.level(chosen)
            if default:
                kw["default"] = True
            uc.add_user(self.engine.usm, user, namespace=SPACES[space], **kw)
            self.users[space][user.name] = (user, chosen)
            if default or self.default[space] is None:
                self.default[space] = user.name
        self.managers = []
        self.expect = None              # what the datagrams have to look like
        self.seen = 0
        self.senders = set()
        world.on_send = self.on_send

    # wire
    def on_send(self, transport, address, data):
        m = self.current
        same(address, m.address, "destination")
        same(transport.local, m.local, "local address")
        require(type(transport).__name__ == {4: "UdpIPv4Socket", 6: "UdpIPv6Socket"}[m.domain],
                "sent by a {}", type(transport).__name__)
        require(not transport.closed, "sent through a closed transport")
        if m.version == 3:
            reply = self.v3(m, data)
        else:
            e = self.expect
            require(e is not None, "a request was sent although it had to be refused: {}", data)
            version, community, pdu = mgr.parse_community(data)
            same(version, m.version, "version")
            same(community, e["community"], "community")
            self.check_pdu(pdu)
            reply = ref.enc_community(version, community, ("resp", pdu[1], 0, 0, pdu[4]))
        if reply is not None:
            self.world.after(U, lambda: self.world.hear(transport, address, reply))

    def check_pdu(self, pdu):
        e = self.expect
        require(e is not None, "a request was sent although it had to be refused: {}", pdu)
        want = (e["kind"], pdu[1]) + (e["bulk"] if e["kind"] == "bulk" else (0, 0)) + (e["vbs"],)
        same(pdu, want, "PDU")
        require(pdu[1] != 0, "request id 0")
        self.seen += 1
        self.senders.add(self.managers.index(self.current))

    def v3(self, m, data):
        o = ur.Opened(data)
        same(o.maxsize, self.maxsize, "msgMaxSize")
        same(o.model, 3, "security model")
        require(o.reportable, "not reportable")
        if o.engine == b"":
            require(not m.given, "discovery although the engine id was given")
            _, context, pdu = o.scoped()
            require(o.level == 0 and o.user == b"" and pdu[0] == "get" and not pdu[4]
                    and context == b"", "discovery message is {} for user {}", pdu, o.user)
            return m.agent.process(data)
        same(o.engine, m.agent.engine, "engine id")
        e = self.expect
        require(e is not None, "a request was sent at level {} for user {} although it had to be "
                "refused", o.level, o.user)
        same((o.user, o.level), (e["user"], e["level"]), "user and level")
        user = self.users[m.space].get(o.user, (None, 0))[0]
        require(not o.level or o.authentic(user), "request is not authentic")
        engine, context, pdu = o.scoped(user)
        same((engine, context), (m.agent.engine, b""), "context")
        self.check_pdu(pdu)
        return m.agent.process(data)

    # caller
    def manager(self, i, spec):
        (version, asint, domain, form, host, port, local, autowait, community, v3) = spec
        kw = {}
        m = Managed()
        m.index = i
        bad = None
        m.version = self.version if version is None else version
        m.domain = self.domain if domain is None else domain
        if version is not None:
            kw["version"] = version if asint or version not in VERSIONS else VERSIONS[version]
            if version not in VERSIONS:
                bad = "version"
        if domain is not None:
            kw["domain"] = DOMAINS.get(domain, domain)
            if domain not in DOMAINS:
                bad = "domain"
        d = m.domain if m.domain in DOMAINS else 4
        name = HOSTS[d][host] % i
        address = (name, port) if form else name
        m.address = (name, port if form else 161)
        if local is not None:
            kw["localAddress"] = LOCALS[d][local]
            m.local = normal_local(d, LOCALS[d][local])
        else:
            m.local = (WILD[d], 0)
        if form and port == 0:
            bad = "port"
        m.autowait = self.autowait if autowait is None else autowait
        if autowait is not None:
            kw["autowait"] = autowait
        if m.version == 3:
            (space, name, level, m.given, model) = v3
            m.space = space
            if space:
                kw["namespace"] = SPACES[space]
            if name is not None:
                kw["defaultUserName"] = NAMES[name].decode()
            if level is not None:
                kw["defaultSecurityLevel"] = uc.level(level)
            m.user = self.default[space] if name is None else NAMES[name]
            engine = b"\x80\x00\x1f\x88\x04dev%d" % i
            if m.given:
                kw["engineID"] = engine
            if model:
                kw["securityModel"] = {1: SecurityModel.USM, 2: 3, 3: 99}[model]
                if model == 3:
                    bad = "security model"
            if m.user is None:
                bad = bad or "no default user"
            elif level is None and m.user not in self.users[space]:
                bad = bad or "unknown default user"
            else:
                m.level = level if level is not None else self.users[space][m.user][1]
            m.agent = mgr.Agent(self.world, engine,
                                [u for u, _ in self.users[space].values()], 1, 60)
            m.agent.answer = lambda o, pdu, user: ("resp", pdu[1], 0, 0, pdu[4])
        else:
            m.community = COMMUNITIES[self.community if community is None else community]
            if community is not None:
                kw["community"] = COMMUNITIES[community]
        sent = len(self.world.sent)
        try:
            m.m = self.engine.Manager(address, **kw)
        except Exception as err:
            require(bad is not None, "Manager({}, {}) raised {}: {}", address, kw,
                    type(err).__name__, err)
            if bad in ("version", "domain", "port", "security model"):
                require(isinstance(err, ValueError), "Manager({}, {}) with an invalid {} raised "
                        "{}: {}", address, kw, bad, type(err).__name__, err)
            self.ctx.label("refused: " + bad)
            m = None
        else:
            require(bad is None, "Manager({}, {}) was created despite: {}", address, kw, bad)
            self.ctx.label(f"manager v{m.version}")
        require(len(self.world.sent) == sent, "creating a manager sent something")
        self.managers.append(m)
        ports = [t.local for t in self.world.transports if t.local[1]]
        require(len(ports) == len(set(ports)), "two sockets were bound to one address: {}", ports)

    def call(self, spec):
        (which, kind, vbs, style, bulk, badoid, wait, community, user, level) = spec
        live = [m for m in self.managers if m is not None]
        if not live:
            return
        m = live[which % len(live)]
        if kind == "bulk" and m.version == 0:
            kind = "next"
        if m.version == 0:
            vbs = tuple((o, v if v[0] != "c64" else ("tt", 1)) for o, v in vbs)
        if kind != "set":
            vbs = tuple((o, ("null",)) for o, _ in vbs)
        kw = {}
        waiting = m.autowait if wait is None else wait
        if wait is not None:
            kw["wait"] = wait
        refuse = badoid is not None or kind == "bulk" and max(bulk) > 2**31 - 1
        self.expect = {"kind": kind, "vbs": vbs, "bulk": bulk}
        known = True
        if m.version == 3:
            name = m.user if user is None else NAMES[user]
            bits = m.level if level is None else level
            if user is not None:
                kw["user"] = name
            if level is not None:
                kw["securityLevel"] = uc.level(level)
            self.expect.update(user=name, level=bits)
            known = name in self.users[m.space]
            if bits & ~(self.users[m.space][name][0].level if known else 0):
                refuse = True
            if user is not None or level is not None:
                self.ctx.label("override")
        else:
            self.expect["community"] = m.community if community is None else COMMUNITIES[community]
            if community is not None:
                kw["community"] = COMMUNITIES[community]
                self.ctx.label("override")
        if refuse:
            self.expect = None
            self.ctx.label("refused request")
        self.current = m
        self.seen = 0
        before = len(self.world.sent)
        result = []

        def go():
            args = []
            for j, (oid, value) in enumerate(vbs):
                text = ".".join(map(str, oid))
                name = [OID(*oid), text, "." + text][style[j % len(style)] % 3]
                if badoid is not None and j == badoid[0] % len(vbs):
                    name = BADOIDS[badoid[1]]
                if kind == "set":
                    pair = (name, conv.to_value(value))
                    if value == ("null",) and style[0] > 2:
                        pair = (name, None)
                    args.append(VarBind(*pair) if style[j % len(style)] > 2 else pair)
                else:
                    args.append(name)
            fn = {"get": m.m.get, "next": m.m.getNext, "set": m.m.set,
                  "bulk": getattr(m.m, "getBulk", None)}[kind]
            if kind == "bulk":
                kw.update({k: v for k, v in zip(("nonRepeaters", "maxRepetitions"), bulk)
                           if v or style[0] > 1})
            handle = fn(*args, **kw)
            if waiting:
                require(isinstance(handle, VarBindList), "a waiting {} returned {}", kind, handle)
                return handle
            require(not isinstance(handle, VarBindList), "{} with wait=False waited", kind)
            result.append(handle)
            return handle.wait()

        got = mgr.outcome(go)
        what = f"{kind} through manager {m.index} (v{m.version}) with {kw}"
        if refuse:
            require(got[0] == "raised", "{} was not refused but gave {}", what, got)
            if m.version != 3:
                require(len(self.world.sent) == before, "{} raised but sent something", what)
            return
        require(self.seen > 0, "{} gave {} without sending its request", what, got)
        if known:
            same(got, ("ok", vbs), what)
        else:
            require(got[0] == "raised", "{} gave {}", what, got)
        self.ctx.label(f"{kind} v{m.version}")


def run(case, ctx):
    with sim.Simulation() as world:
        s = Run(case, ctx, world)
        for i, spec in enumerate(case[2]):
            s.manager(i, spec)
        for spec in case[3]:
            s.call(spec)
        s.engine.shutdown()
        ctx.nontrivial(len(s.senders) > 1 and any(
            x.startswith(("refused", "override")) for x in ctx.labels) or
            len(s.senders) > 1 and any(m and m.version == 3 for m in s.managers))


def opt(strategy):
    return st.one_of(st.none(), strategy)


def managers():
    version = st.sampled_from([None, None, 0, 1, 1, 3, 3, 3] * 5 + [2, 7])
    domain = st.sampled_from([None, None, None, 4, 6] * 9 + [9, "udp"])
    v3 = st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2]), st.sampled_from([None, None, None, None, 0, 0, 1, 1, 2, 2, 3]),
                   st.sampled_from([None, None, 0, 1, 3]), st.booleans(),
                   st.sampled_from([0] * 17 + [1, 1, 2, 2, 3]))
    one = st.tuples(version, st.booleans(), domain, st.booleans(), st.integers(0, 1),
                    st.sampled_from([161, 162, 1, 65535, 10161, 161, 10161] * 3 + [0]),
                    opt(st.integers(0, 7)), opt(st.booleans()), opt(st.integers(0, 3)), v3)
    return gen.sized(one, 2, 4)


def calls():
    vbs = st.one_of(gen.sized(gen.varbinds(), 1, 2), gen.sized(gen.varbinds(), 0, 4))
    bulk = st.one_of(st.tuples(gen.uint31(), gen.uint31()), st.tuples(st.integers(0, 3),
                                                                     st.integers(0, 30)),
                     st.sampled_from([(2**31, 0), (0, 2**31), (2**40, 5)]))
    base = st.tuples(st.integers(0, 5), st.sampled_from(KINDS), vbs, st.tuples(
        *[st.integers(0, 5)] * 3), bulk,
        st.sampled_from([0] * 11 + [1]).flatmap(lambda x: st.tuples(
            st.integers(0, 2), st.integers(0, len(BADOIDS) - 1)) if x else st.none()),
        opt(st.booleans()), opt(st.integers(0, 3)),
        st.sampled_from([None, None, None, 0, 1, 2, 3]), st.sampled_from([None, None, None, None, 0, 0, 1, 3]))
    # a bad OID needs a binding to be in
    base = base.map(lambda t: t if t[2] else t[:5] + (None,) + t[6:])
    return gen.sized(base, 2, 8)


def users():
    one = st.tuples(st.sampled_from([0, 0, 1]), st.sampled_from([0, 0, 0, 1, 1, 1, 2, 2, 2, 3]), uc.user_spec(b""),
                    st.sampled_from([False, False, True]), opt(st.integers(0, 2)))
    return gen.sized(one, 1, 5)


def engines():
    return st.tuples(st.sampled_from([0, 1, 3, 3]), st.sampled_from([4, 4, 6]), st.integers(0, 3),
                     st.sampled_from([1472, 1472, 484, 65507, 2048]), st.booleans())


SUBS = [Sub("requests", lambda: st.tuples(engines(), users(), managers(), calls()), run, 7000)]
