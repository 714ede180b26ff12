"""S06: users, namespaces and remote engines stay isolated."""
from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, Violation, raises, require, same

from snmp.security.usm import UserBasedSecurityModule

from harness import conv, gen, ref, usmconf as uc, usmref as ur

RULE = ("histories of addUser (valid and invalid), registerRemoteEngine and unregisterRemoteEngine "
        "over namespaces, names and engine ids that resemble each other, one engine being registered "
        "up to 300 times, or up to 120 users and 300 engines being known; after every step every default and every (engine, user, level) "
        "combination is compared with the model, keys being judged by the reference from the "
        "passwords; non-trivial = an operation was rejected and an engine "
        "was bound")
ASSUMPTIONS = ["adding a user again with identical settings is accepted without effect",
               "unregistering an engine that is not registered may raise or not, without effect"]

NAMESPACES = ["", "one", "One", "one "]
NAMES = ["alice", "Alice", "", "zoë", "alice "]
ENGINES = [b"\x80engine-a", b"\x80engine-A", b"\x80engine-a\0"]
SECRETS = [None, b"maplesyrup", b"swordfish"]
ALGOS = ["md5", "sha1", "sha256", "sha512"]


class Model:
    def __init__(self):
        self.spaces = {}                    # namespace -> {"users": {name: ...}, "default": name}
        self.bound = {}                     # engine -> [namespace, count]

    def add(self, ns, name, auth, authpw, priv, privpw, secret, default, level):
        """-> accepted?"""
        if auth is None:
            creds = (None, None, None, None)
        else:
            key = authpw or secret
            if key is None:
                return False
            if priv is None:
                creds = (auth, key, None, None)
            else:
                pkey = privpw or secret
                if pkey is None:
                    return False
                creds = (auth, key, priv, pkey)
        user = ur.User(name.encode(), *creds)
        if level is None:
            level = user.level
        elif level > user.level:
            return False
        space = self.spaces.get(ns, {"users": {}, "default": None})
        old = space["users"].get(name)
        if old is not None:
            if (old[0].auth, old[0].authpw, old[0].priv, old[0].privpw, old[1]) != creds + (level,):
                return False
            if default and space["default"] != name:
                return False
        space["users"][name] = (user, level)
        if default or space["default"] is None:
            space["default"] = name
        self.spaces[ns] = space
        return True


def probe_one(usm, engine, name, lvl, user, what):
    def send():
        return uc.outgoing(usm, 9, lvl, True, conv.to_pdu(("get", 1, 0, 0, ())), engine,
                           name.encode(), 5.0)

    if user is None or user.level < lvl:
        raises(Exception, send, f"{what}: message for {name!r} at level {lvl} to {engine}")
        return
    opened = ur.Opened(send())
    same((opened.level, opened.engine, opened.user), (lvl, engine, user.name), what)
    require(opened.authentic(user), "{}: {} is not signed with the keys configured for {} there",
            what, name, engine)
    if lvl == 3:
        same(opened.scoped(user)[2], ("get", 1, 0, 0, ()), f"{what}: decrypted")


def incoming(usm, engine, user, lvl, what):
    """A genuine message of the user is accepted; processIncoming uses the same tables."""
    data = ur.seal(1, lvl, engine, 1, 1, user, ref.enc_scoped(engine, b"", ("resp", 1, 0, 0, ())))
    try:
        usm.processIncoming(uc.SNMPv3Message.decode(data), 5.0)
    except Exception as err:
        return err
    return None


def check(usm, model, what):
    for ns in NAMESPACES:
        space = model.spaces.get(ns)
        if space is None:
            raises(ValueError, lambda: usm.getDefaultUser(ns), f"{what}: default user of an unknown "
                   "namespace")
            raises(ValueError, lambda: usm.getDefaultSecurityLevel(NAMES[0], ns),
                   f"{what}: default level in an unknown namespace")
            continue
        same(usm.getDefaultUser(ns), space["default"], f"{what}: default user of {ns!r}")
        for name in NAMES:
            if name in space["users"]:
                got = usm.getDefaultSecurityLevel(name, ns)
                same(uc.bits(got), space["users"][name][1], f"{what}: default level of {name!r}")
            else:
                raises(ValueError, lambda: usm.getDefaultSecurityLevel(name, ns),
                       f"{what}: default level of an unknown user")
    for engine in ENGINES:
        ns = model.bound.get(engine, [None])[0]
        users = model.spaces.get(ns, {"users": {}})["users"] if ns is not None else {}
        for name in NAMES:
            user = users.get(name, (None,))[0]
            for lvl in (1, 3):
                probe_one(usm, engine, name, lvl, user, what)
            if user is not None and user.level:
                err = incoming(usm, engine, user, user.level, what)
                require(err is None, "{}: genuine message from {} rejected: {}", what, name, repr(err))
            elif user is None:
                for other in model.spaces.values():
                    if name in other["users"] and other["users"][name][0].level:
                        require(incoming(usm, engine, other["users"][name][0], 1, what) is not None,
                                "{}: message signed by {!r} of another namespace accepted from {}",
                                what, name, engine)


def bind(usm, model, op):
    """register -> was it accepted?  unregister -> was it the last one?"""
    engine, ns = ENGINES[op[1]], NAMESPACES[op[2]]
    entry = model.bound.get(engine)
    if op[0] == "register":
        want = entry is None or entry[0] == ns
        same(bool(usm.registerRemoteEngine(engine, ns)), want, "engine registration accepted")
        if entry is None:
            model.bound[engine] = [ns, 1]
        elif want:
            entry[1] += 1
        return want
    try:
        usm.unregisterRemoteEngine(engine, ns)
    except Exception:
        if entry is not None:
            raise
    if entry is not None and entry[0] == ns:
        entry[1] -= 1
        if entry[1] == 0:
            del model.bound[engine]
            return True
    return False


def run(case, ctx):
    usm = UserBasedSecurityModule()
    model = Model()
    rejected = 0
    for op in case:
        kind = op[0]
        if op[3:] and kind != "add":        # the same many times
            for _ in range(op[3] - 1):
                bind(usm, model, op)
            ctx.label("many times")
        if kind == "add":
            _, ni, si, auth, a, priv, p, s, default, level = op
            ns, name = NAMESPACES[si], NAMES[ni]
            authpw, privpw, secret = SECRETS[a], SECRETS[p], SECRETS[s]
            want = model.add(ns, name, auth, authpw, priv, privpw, secret, default, level)
            kw = {}
            if secret is not None:
                kw["secret"] = secret
            if authpw is not None:
                kw["authSecret"] = authpw
            if privpw is not None:
                kw["privSecret"] = privpw
            try:
                usm.addUser(name, uc.auth_class(auth), privProtocol=uc.priv_class(priv),
                            default=default, namespace=ns,
                            defaultSecurityLevel=None if level is None else uc.level(level), **kw)
                got = True
            except Exception as err:
                got = False
            same(got, want, f"addUser({name!r}, {auth}, {authpw}, {priv}, {privpw}, {secret}, "
                 f"default={default}, level={level}, namespace={ns!r}) accepted")
            ctx.label("added" if want else "refused")
            rejected += not want
        elif kind == "register":
            want = bind(usm, model, op)
            ctx.label("bound" if want else "bound elsewhere")
            rejected += not want
        elif bind(usm, model, op):
            ctx.label("released")
        check(usm, model, f"after {kind}")
    ctx.nontrivial(rejected > 0 and bool(model.bound))


def ops():
    add = st.tuples(st.just("add"), st.sampled_from([0, 0, 1, 1, 2, 3, 4]),
                    st.sampled_from([0, 0, 0, 1, 1, 2, 3]),
                    st.sampled_from([None, "md5", "md5", "sha1", "sha256", "sha512"]),
                    st.sampled_from([0, 1, 1, 2]), st.sampled_from([None, "aes", "aes", "des"]),
                    st.sampled_from([0, 0, 1, 2]), st.sampled_from([0, 1, 1, 2]), st.booleans(),
                    st.sampled_from([None, None, None, 0, 1, 3]))
    reg = st.tuples(st.sampled_from(["register", "register", "unregister"]), st.integers(0, 2),
                    st.sampled_from([0, 0, 0, 1, 1, 2, 3]))
    return st.one_of(add, reg)


@st.composite
def many(draw):
    """A user, then one engine that is used by a large number of requests at once."""
    total = draw(st.one_of(st.integers(2, 80), st.integers(2, 300), st.sampled_from(
        [16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257])))
    ns, e = draw(st.integers(0, 1)), draw(st.integers(0, 2))
    out = [("add", 0, ns, "md5", 1, None, 0, 0, True, None), ("register", e, ns, total)]
    left = total
    while left:
        n = draw(st.sampled_from([left, left, 1, (left + 1) // 2, left - 1 or 1]))
        left -= n
        out.append(("unregister", e, ns, n))
        if draw(st.integers(0, 3)) == 0:
            out.append(("register", e, draw(st.sampled_from([ns, 1 - ns])), 1))
            left += out[-1][2] == ns and left > 0
            if not left:
                break
    return tuple(out[:40])


def run_wide(case, ctx):
    """Many users, namespaces and engines at a time."""
    nspaces, nusers, nengines, algos, late, stride, gone = case
    usm = UserBasedSecurityModule()
    spaces = [f"ns{i}" for i in range(nspaces)]
    users = {}                              # (namespace, name) -> user
    first = {}

    def add(i):
        ns, name = spaces[i % nspaces], f"user{i // nspaces}"
        algo = algos[i % len(algos)] if i % 7 == 0 else None
        user = ur.User(name.encode(), *((algo, b"password %d" % (i % 5), None, None) if algo
                                        else (None,) * 4))
        uc.add_user(usm, user, namespace=ns)
        users[ns, name] = user
        first.setdefault(ns, name)

    engines = [b"\x80engine" + i.to_bytes(2, "big") for i in range(nengines)]
    for i in range(nusers - min(late, nusers - nspaces)):
        add(i)
    for i, e in enumerate(engines):
        require(usm.registerRemoteEngine(e, spaces[i % nspaces]), "engine {} of {} was refused", i,
                nengines)
    for i in range(len(users), nusers):     # the rest when the engines are known already
        add(i)
    removed = {i for i in range(nengines) if i % 7 in gone}
    for i in sorted(removed, key=lambda i: (i * stride % nengines, i)):
        usm.unregisterRemoteEngine(engines[i], spaces[i % nspaces])
    for ns in spaces:
        same(usm.getDefaultUser(ns), first[ns], f"default user of {ns} of {nspaces}")
    for (ns, name), user in users.items():
        same(uc.bits(usm.getDefaultSecurityLevel(name, ns)), user.level, f"default level of {name}")
    some = [(k, u) for k, u in users.items() if u.level]
    for i, e in enumerate(engines):
        ns = spaces[i % nspaces]
        if i in removed:
            probe_one(usm, e, some[0][0][1], 1, None, "after it was unregistered")
            continue
        (uns, name), user = some[i * stride % len(some)]
        mine = users.get((ns, name))
        probe_one(usm, e, name, 1, mine, f"engine {i} of {nengines}")
        if nspaces > 1:
            require(not usm.registerRemoteEngine(e, spaces[(i + 1) % nspaces]),
                    "engine {} of {} was handed to another namespace", i, nengines)
    for i in removed:
        require(usm.registerRemoteEngine(engines[i], spaces[(i + 1) % nspaces]),
                "an engine that was released could not be used again")
    ctx.label(f"{nusers // 20 * 20}+ users", f"{nengines // 50 * 50}+ engines")
    ctx.nontrivial(nusers > 20 or nengines > 40)


def wide():
    return st.integers(1, 40).flatmap(lambda n: st.tuples(
        st.just(n), st.integers(n, 120), st.one_of(st.integers(1, 300), st.integers(30, 300)),
        gen.sized(st.sampled_from(ALGOS), 1, 3), st.integers(0, 60), st.sampled_from([1, 3, 11, 37]),
        st.lists(st.integers(0, 6), max_size=3).map(tuple)))


SUBS = [Sub("wide", wide, run_wide, 240),
        Sub("histories", lambda: gen.sized(ops(), 1, 14), run, 3600),
        Sub("many", many, run, 400)]

