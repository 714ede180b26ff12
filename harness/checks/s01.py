"""S01: key derivation, localization and digests are those of RFC 3414 appendix A and RFC 7860."""
from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, require, same

from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.pdu import GetRequestPDU
from snmp.security import SecurityModel
from snmp.security.levels import SecurityLevel
from snmp.security.usm import PrivProtocol, UserBasedSecurityModule
from snmp.security.usm import auth as auth_module

from harness import gen, ref, usmref as ur

RULE = ("passwords of every length class (1 to 200 octets, divisors of 2^20, around 2^20), engine "
        "ids of 0 to 40 octets, keys of 0 to 300 octets and messages of all lengths up to 2 kB and "
        "many up to 64 kB, for all six protocols; users configured with separate secrets, one shared secret, or a mix; "
        "non-trivial = a password longer than one octet, or a message longer than one hash block")
ASSUMPTIONS = ["hashlib implements the hash functions correctly"]

ALGOS = sorted(ur.AUTH)
FIXED = [ # RFC 3414 A.3.1, A.3.2 and the RFC 7860-style localization of the same password
    ("md5", "526f5eed9fcce26f8964c2930787d82b"),
    ("sha1", "6695febc9288e36282235fc7151f128497b38f3f"),
]


def cls_of(algo):
    return getattr(auth_module, ur.AUTH[algo][3])


def passwords():
    sizes = st.one_of(st.integers(1, 40), st.integers(1, 200), st.sampled_from(
        [1, 2, 4, 8, 16, 32, 63, 64, 65, 127, 128, 129, 1024, 2**20 - 1, 2**20, 2**20 + 1]))
    return st.one_of(gen.binary(1, 40),
                     st.tuples(sizes, st.binary(min_size=1, max_size=6)).map(
                         lambda t: ("size",) + t))


def password(spec):
    if isinstance(spec, bytes):
        return spec
    _, n, seed = spec
    return (seed + bytes(i * 7 % 251 for i in range(min(n, 1000))) * (n // 1000 + 1))[:n]


def derive(case, ctx):
    algo, pw, engine = case
    pw = password(pw)
    cls = cls_of(algo)
    ctx.label(algo, "short" if len(pw) < 64 else "long" if len(pw) < 2**20 - 1 else "2^20")
    ctx.nontrivial(len(pw) > 1)
    key = cls.computeKey(pw)
    same(key, ur.password_key(algo, pw), f"{algo} key")
    local = ur.localize(algo, key, engine)
    same(cls.localizeKey(key, engine), local, f"{algo} localized key")
    same(cls.localize(pw, engine), local, f"{algo} localize()")
    same(cls.localize(pw, engine), local, f"{algo} localize() a second time")


def fixed(case, ctx):
    algo, want = case
    ctx.label(algo)
    ctx.nontrivial()
    engine = bytes(11) + b"\x02"
    same(cls_of(algo).localize(b"maplesyrup", engine).hex(), want, "RFC 3414 appendix A.3")
    same(ur.localized(algo, b"maplesyrup", engine).hex(), want, "reference")


def digests(case, ctx):
    algo, key, data, repeat = case
    cls = cls_of(algo)
    data = data * repeat
    ctx.label(algo, "long" if len(data) > 64 else "short",
              "bigkey" if len(key) > ur.AUTH[algo][1] else "key")
    ctx.nontrivial(len(data) > ur.AUTH[algo][1])
    auth = cls(key)
    n = ur.maclen(algo)
    same(bytes(auth.msgAuthenticationParameters), bytes(n), f"{algo} placeholder")
    want = ur.mac(algo, key, data)
    same(auth.sign(data), want, f"{algo} digest")
    same(auth.sign(data), want, f"{algo} digest, second call")
    same(cls(key).sign(data), want, f"{algo} digest, another instance")


def lengths(case, ctx):
    """Digests of messages of many consecutive lengths."""
    algo, key, seed, start, count = case
    cls, block = cls_of(algo), ur.AUTH[algo][1]
    data = (seed * ((start + count) // len(seed) + 1))
    auth = cls(key)
    ctx.label(algo)
    ctx.nontrivial(start > block)
    for n in range(start, start + count):
        same(auth.sign(data[:n]), ur.mac(algo, key, data[:n]), f"{algo} digest of {n} octets")


class Recorder(PrivProtocol):
    """Stands in for a cipher: reports the key it was given."""
    def __init__(self, key):
        self.key = key

    def encrypt(self, data, engineBoots, engineTime):
        return b"KEY:" + self.key, b"saltsalt"


def levels(bits):
    return SecurityLevel(auth=bool(bits & 1), priv=bool(bits & 2))


def configured(case, ctx):
    """The keys that end up in use for a configured user, seen from outgoing messages."""
    algo, users, engines, late = case
    usm = UserBasedSecurityModule()
    late = late % (len(users) + 1)
    ctx.label(algo, f"users={len(users)}")
    ctx.nontrivial()
    ids = []
    for e in engines:
        if e not in ids:
            ids.append(e)

    def add(i, spec):
        kwargs = {k: v for k, v in zip(("authSecret", "privSecret", "secret"), spec[:3])
                  if v is not None}
        usm.addUser(f"user{i}", cls_of(spec[3] or algo), privProtocol=Recorder, **kwargs)

    for i, spec in enumerate(users[:late]):
        add(i, spec)
    for e in ids:
        require(usm.registerRemoteEngine(e), "engine could not be registered")
    for i, spec in list(enumerate(users))[late:]:
        add(i, spec)

    for e in ids:
        for i, spec in enumerate(users):
            authpw, privpw, shared, other = spec
            ctx.label("shared" if shared is not None else "separate")
            user = ur.User(f"user{i}".encode(), other or algo, authpw or shared, "aes",
                           privpw or shared)
            for bits in (1, 3):
                header = HeaderData(5, 1472, MessageFlags(levels(bits), True), SecurityModel.USM)
                message = SNMPv3Message(header, ScopedPDU(GetRequestPDU("1.3.6.1"), e))
                data = usm.prepareOutgoing(message, e, user.name)
                opened = ur.Opened(bytes(data))
                require(opened.authentic(user), "digest of {} for {} is not the one its "
                        "authentication secret gives", user.name, e)
                if bits == 3:
                    got, _ = ref.Reader().octets(opened.payload, True)
                    same(got, b"KEY:" + user.privkey(e), f"privacy key of {user.name}")


def secrets():
    pw = st.sampled_from([b"maplesyrup", b"swordfish", b"x", b"a much longer secret than the rest"])
    return st.one_of(
        st.tuples(pw, pw, st.none()), st.tuples(st.none(), st.none(), pw),
        st.tuples(pw, st.none(), pw), st.tuples(st.none(), pw, pw), st.tuples(pw, pw, pw),
    ).flatmap(lambda t: st.sampled_from([None, *ALGOS]).map(lambda a: t + (a,)))


SUBS = [
    Sub("fixed", run=fixed, cases=lambda tier: FIXED),
    Sub("derive", lambda: st.tuples(st.sampled_from(ALGOS), passwords(), gen.blobs()), derive, 1600),
    Sub("digests", lambda: st.tuples(
        st.sampled_from(ALGOS), st.one_of(gen.blobs(), gen.binary(0, 300),
                                          st.sampled_from([bytes(range(n)) for n in
                                                           (16, 20, 63, 64, 65, 127, 128, 129)])),
        gen.blobs(), st.sampled_from([1, 2, 10, 100])), digests, 8000),
    Sub("lengths", lambda: st.tuples(
        st.sampled_from(ALGOS), gen.binary(16, 64), st.binary(min_size=40, max_size=40), st.one_of(
            st.sampled_from(range(0, 2048, 64)), st.sampled_from(range(0, 2048, 64)),
            st.integers(0, 65507)), st.just(64)), lengths, 700),
    Sub("configured", lambda: st.tuples(
        st.sampled_from(ALGOS), gen.sized(secrets(), 1, 3), gen.sized(gen.blobs(), 1, 3),
        st.integers(0, 3)), configured, 800),
]
