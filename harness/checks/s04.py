"""S04: no altered or unauthenticated message passes as authenticated."""
from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, Violation, require, same, short

bootstrap.load_openssl_backend()

from snmp.security.usm import UserBasedSecurityModule

from harness import conv, gen, ref, usmconf as uc, usmref as ur

RULE = ("histories of genuine, forged and damaged messages from users of two namespaces on several "
        "engines, judged by an independent RFC 3414 verifier over the exact bytes and by a clock "
        "model probed after every message; plus every byte position of genuine messages altered; "
        "non-trivial = a message carrying the authentication flag was rejected")
ASSUMPTIONS = ["an authentic message that cannot be decrypted is only sent with the current boots "
               "and time, so whether it counts for the clock is left open",
               "which unauthenticated messages decode is decided by C04, not here"]

NAMESPACES = ("", "other")


class World:
    def __init__(self, package, specs, engines):
        self.usm = UserBasedSecurityModule()
        self.users = {}                     # (namespace, name) -> User
        self.engines = {}                   # engine -> namespace
        self.clocks = {}
        for ns, spec in specs:
            user = uc.make(spec)
            if (ns, user.name) not in self.users:
                self.users[ns, user.name] = user
                uc.add_user(self.usm, user, ns, package)
        for e, ns in engines:
            if e not in self.engines:
                require(self.usm.registerRemoteEngine(e, ns), "engine not registered")
                self.engines[e] = ns
                self.clocks[e] = ur.Clock()

    def judge(self, data, at):
        """-> None (reject), or (level, engine, user, scoped or None)."""
        try:
            opened = ur.Opened(data)
        except ref.Reject:
            return None
        if not opened.level & 1:
            return (0, opened.engine, opened.user, None)
        user = self.users.get((self.engines.get(opened.engine), opened.user))
        if user is None or opened.level & ~user.level:
            return None
        if not opened.authentic(user):
            return None
        if not self.clocks[opened.engine].update(opened.boots, opened.time, at):
            return None
        try:
            scoped = opened.scoped(user)
        except ref.Reject:
            return None
        return (opened.level, opened.engine, opened.user, scoped)

    def deliver(self, data, at):
        """What the code under test does."""
        try:
            message = uc.SNMPv3Message.decode(data)
            self.usm.processIncoming(message, at)
        except Exception as err:
            return None, err
        lvl = uc.bits(message.header.flags.securityLevel)
        scoped = message.scopedPDU
        scoped = (bytes(scoped.contextEngineID), bytes(scoped.contextName),
                  conv.from_pdu(scoped.pdu)) if scoped is not None else None
        return (lvl, bytes(message.securityEngineID), bytes(message.securityName), scoped), None

    def receive(self, data, at, what):
        want = self.judge(data, at)
        got, err = self.deliver(data, at)
        if got is not None and got[0] == 0:
            require(want is None or want[0] == 0, "{}: authenticated message delivered as "
                    "unauthenticated", what)
            opened = ur.Opened(data) if want else None
            if opened is not None and opened.engine in self.clocks:
                self.clocks[opened.engine].hint(opened.boots, opened.time, at)
            elif opened is None:
                raise Violation(f"{what}: undecodable message delivered as {short(got)}")
        elif got is not None:
            require(want is not None, "{}: delivered at level {} although the reference rejects it",
                    what, got[0])
            same(got, want, what)
        elif want is not None and want[0]:
            raise Violation(f"{what}: authentic message rejected with {err!r}")
        return got

    def probe(self, at, what):
        """The clock seen in outgoing messages is the model's."""
        for engine, ns in self.engines.items():
            for (uns, name), user in self.users.items():
                if uns == ns and user.level:
                    data = uc.outgoing(self.usm, 1, 1, True, conv.to_pdu(("get", 1, 0, 0, ())),
                                       engine, name, at)
                    opened = ur.Opened(data)
                    same((opened.boots, opened.time), self.clocks[engine].now(at),
                         f"clock after {what}")
                    require(opened.authentic(user), "keys changed after {}", what)
                    break


def relative(clock, at, db, dt):
    boots, time = clock.now(at)
    return max(0, min(ur.MAX31, boots + db)), max(0, min(ur.MAX31, time + dt))


def history(case, ctx):
    package, specs, engines, start, ops = case
    w = World(package, specs, engines)
    at = start
    names = list(w.users)
    ids = list(w.engines)
    ctx.label(package)
    for what, elapsed, ui, ei, lvl, db, dt, pdu, extra in ops:
        at += elapsed
        engine = ids[ei % len(ids)]
        clock = w.clocks[engine]
        fitting = [k for k in names if k[0] == w.engines[engine]] or names
        user = w.users[fitting[ui % len(fitting)]]
        lvl = {0: 0, 1: 1, 3: 3}[lvl] & user.level
        boots, time = relative(clock, at, db, dt)
        scoped = ref.enc_scoped(engine, b"ctx", pdu)
        a, b, blob = extra

        def seal(**kw):
            args = dict(msgid=7, flags=lvl, engine=engine, boots=boots, time=time,
                        user=user if lvl else None, scoped=scoped, salt=(blob + bytes(8))[:8],
                        name=user.name)
            args.update(kw)
            return ur.seal(**args)

        if what == "genuine":
            data = seal()
        elif what == "flip":
            data = bytearray(seal())
            data[a % len(data)] ^= b % 255 + 1
            data = bytes(data)
        elif what == "cut":
            data = seal()
            data = data[:a % len(data)] if b % 2 else data + blob
        elif not lvl:
            data = seal()
            what = "unauthenticated"
        elif what == "wrong password":
            data = seal(user=ur.User(user.name, user.auth, b"not the password", user.priv,
                                     user.privpw))
        elif what == "other user":          # signed with another user's keys
            other = w.users[names[b % len(names)]]
            data = seal(user=other, flags=lvl & other.level, name=user.name)
        elif what == "other engine":        # keys localized to another engine
            other = ids[b % len(ids)]
            data = bytes(seal(engine=other))
            opened = ur.Opened(data)
            data = rebuild(opened, engine=engine)
        elif what == "edit":                # change one field after signing
            opened = ur.Opened(seal())
            field = ("engine", "boots", "time", "user", "auth", "salt", "flags", "id", "payload")[a % 9]
            value = {
                "engine": ids[b % len(ids)], "boots": (opened.boots + b - 3) % 2**31,
                "time": (opened.time + b - 100) % 2**31, "user": names[b % len(names)][1],
                "auth": [b"", bytes(len(opened.auth)), opened.auth[:-1], opened.auth + b"\0",
                         opened.auth[:1], blob, opened.auth[:12]][b % 7],
                "salt": blob, "flags": b % 8, "id": b, "payload": b"\x04" + ref.enc_len(len(blob))
                + blob,
            }[field]
            data = rebuild(opened, **{field: value})
        elif what == "resigned":            # a short or long digest that is otherwise right
            opened = ur.Opened(seal())
            n = [0, 1, 4, 11, 13, 16, 20, 24, 64][a % 9]
            unsigned = rebuild(opened, auth=bytes(n))
            digest = full_mac(user, engine, unsigned)[:n]
            data = unsigned.replace(bytes(n), digest, 1) if n and unsigned.count(bytes(n)) else unsigned
            data = rebuild(opened, auth=digest)
        elif what == "undecryptable" and lvl == 3 and clock.auth and clock.boots < ur.MAX31:
            boots, time = clock.now(at)
            opened = ur.Opened(seal(boots=boots, time=time))
            payload = ref.enc_oct(blob)
            data = sign(user, rebuild(opened, payload=payload, auth=bytes(ur.maclen(user.auth)),
                                      salt=opened.salt if b % 2 else blob))
        else:
            data = seal()
            what = "genuine"
        got = w.receive(data, at, f"{what} message")
        if lvl and got is None and ur_flag(data):
            ctx.nontrivial()
            ctx.label(f"{what}: rejected")
        else:
            ctx.label(f"{what}: delivered at {got[0] if got else None}")
        w.probe(at, f"{what} message")


def ur_flag(data):
    try:
        return ur.Opened(data).level & 1
    except ref.Reject:
        return True


def rebuild(opened, **kw):
    """The same message with some fields changed and everything else as it was."""
    f = {k: kw.get(k, getattr(opened, k)) for k in
         ("id", "maxsize", "flags", "model", "engine", "boots", "time", "user", "auth", "salt",
          "payload")}
    usm = ref.enc_usm(f["engine"], f["boots"], f["time"], f["user"], f["auth"], f["salt"])
    return ref.enc_v3(ref.enc_header(f["id"], f["maxsize"], f["flags"], f["model"]), usm,
                      f["payload"])


def full_mac(user, engine, data):
    h, block, n, name = ur.AUTH[user.auth]
    key = user.authkey(engine)
    key = key + bytes(block - len(key))
    inner = h(bytes(x ^ 0x36 for x in key) + data).digest()
    return h(bytes(x ^ 0x5c for x in key) + inner).digest()


def sign(user, data):
    opened = ur.Opened(data)
    digest = ur.mac(user.auth, user.authkey(opened.engine), data)
    return data[:opened.start] + digest + data[opened.end:]


def every_byte(case, ctx):
    """Each byte position of one genuine message, altered by one value."""
    package, spec, engine, boots, time, at, pdu, salt, x = case
    w = World(package, [("", spec)], [(engine, "")])
    user = uc.make(spec)
    lvl = user.level
    data = ur.seal(99, lvl, engine, boots, time, user, ref.enc_scoped(engine, b"", pdu), salt)
    want = w.receive(data, at, "genuine message")
    if boots < ur.MAX31:
        require(want is not None and want[0] == lvl, "genuine message not delivered")
    ctx.label(spec[1], spec[3] or "nopriv")
    ctx.nontrivial()
    for i in range(len(data)):
        bad = data[:i] + bytes([data[i] ^ x]) + data[i + 1:]
        got, err = w.deliver(bad, at)
        require(got is None or got[0] == 0, "altering byte {} by {:#x} passed as level {}", i, x,
                got and got[0])
        if i % 7 == 0:
            require(w.deliver(data[:i], at)[0] is None, "a {}-byte prefix was delivered", i)
    w.probe(at, "altered messages")
    if boots < ur.MAX31:
        same(w.deliver(data, at)[0], want, "genuine message after the altered ones")


def specs():
    one = st.tuples(st.sampled_from(["", "", "other"]),
                    st.sampled_from([b"alice", b"bob"]).flatmap(uc.user_spec))
    first = uc.user_spec(b"alice", 1).map(lambda s: ("", s))
    return st.tuples(first, gen.sized(one, 0, 3)).map(lambda t: (t[0],) + t[1])


def ops():
    kinds = ["genuine", "genuine", "genuine", "flip", "cut", "wrong password", "other user",
             "other engine", "edit", "edit", "edit", "resigned", "undecryptable"]
    dt = st.one_of(st.sampled_from([0, 0, 1, -1, -149, -150, -151, -152, 150, 5000, 2**31]),
                   st.integers(-200, 200))
    return st.tuples(st.sampled_from(kinds), uc.elapses(), st.integers(0, 3), st.integers(0, 3),
                     st.sampled_from([1, 1, 3, 3, 0]),
                     st.sampled_from([0, 0, 0, 0, 1, -1, 2, 5, 2**31]), dt,
                     gen.pdus(max_size=2),
                     st.tuples(st.integers(0, 400), st.integers(0, 260), st.binary(max_size=24)))


SUBS = [
    Sub("history", lambda: st.tuples(
        st.sampled_from(["openssl", "pycryptodome"]), specs(),
        gen.sized(st.tuples(uc.engine_ids(), st.sampled_from(["", "", "other"])), 1, 3),
        uc.instants(), gen.sized(ops(), 1, 10)), history, 2400),
    Sub("every_byte", lambda: st.tuples(
        st.sampled_from(["openssl", "pycryptodome"]), uc.user_spec(b"alice", 1), uc.engine_ids(),
        gen.uint31(), gen.uint31(), uc.instants(), gen.pdus(max_size=1), st.binary(
            min_size=8, max_size=8), st.integers(1, 255)), every_byte, 400),
]
