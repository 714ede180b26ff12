"""S02: encryption is reversible, interoperable and never reuses a salt, on every backend."""
import importlib
import os
import sys

from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, Violation, raises, require, same

bootstrap.load_openssl_backend()

from snmp.security.usm import DecryptionError

from harness import gen, usmref as ur

RULE = ("per backend and cipher: random keys of 16 to 64 octets, plaintexts of 0 to 600 octets, "
        "boots/time over the whole wire range, interleaved encryptions and decryptions, random "
        "starting salts including the wrap-around; runs of hundreds of encryptions for salt reuse; "
        "every wrong salt and ciphertext length; non-trivial = more than one block, or at least "
        "two encryptions under the key")
ASSUMPTIONS = ["the block ciphers themselves (pycryptodome ECB) are correct in the reference",
               "the OpenSSL backend is built from /repo's cffi source with the legacy provider on",
               "salt reuse is searched over bounded runs, not over the 2^32 cycle"]

BACKENDS = {}
for package in ("openssl", "pycryptodome"):
    for name, module in (("aes", "aes"), ("des", "des")):
        mod = importlib.import_module(f"snmp.security.usm.priv.{package}.{module}")
        BACKENDS[package, name] = getattr(mod, ur.PRIV[name])

NAMES = sorted(BACKENDS)
real_urandom = os.urandom


class Urandom:
    """Deterministic os.urandom; the first draws are chosen by the case."""
    def __init__(self, first):
        self.first = list(first)
        self.n = 0

    def __call__(self, size):
        self.n += 1
        if self.first:
            seed = self.first.pop(0)
            return seed[:size].rjust(size, seed[:1] or b"\0")
        return ur.hashlib.sha256(b"%d" % self.n).digest()[:size].ljust(size, b"\0")


def with_urandom(fn):
    def wrapper(case, ctx):
        os.urandom = Urandom(case[2])
        try:
            fn(case, ctx)
        finally:
            os.urandom = real_urandom
    return wrapper


def plain_ok(name, data, plain, what):
    extra = len(plain) - len(data)
    limit = 8 if name == "des" else 0
    require(0 <= extra <= limit and plain[:len(data)] == data,
            "{}: {} bytes come back as {} bytes, equal prefix: {}", what, len(data), len(plain),
            plain[:len(data)] == data)


@with_urandom
def session(case, ctx):
    """Encrypt and decrypt under one key, on one backend, peers being the other backend and the
    reference."""
    (package, name), key, _, ops = case
    priv = BACKENDS[package, name](key)
    other = BACKENDS["openssl" if package == "pycryptodome" else "pycryptodome", name](key)
    salts = set()
    sent = []
    ctx.label(package, name, f"ops={min(len(ops), 9)}")
    for kind, data, boots, time in ops:
        if kind == 0:
            cipher, salt = priv.encrypt(data, boots, time)
            require(type(cipher) is bytes and type(salt) is bytes and len(salt) == 8,
                    "salt {} is not 8 bytes", salt)
            require(salt not in salts, "salt {} used twice", salt.hex())
            salts.add(salt)
            if name == "des":
                same(salt[:4], boots.to_bytes(4, "big"), "engine boots in the DES salt")
                require(len(cipher) % 8 == 0, "DES ciphertext of {} bytes", len(cipher))
            plain = ur.decrypt(name, key, boots, time, salt, cipher)
            plain_ok(name, data, plain, "reference decryption")
            same(cipher, ur.encrypt(name, key, boots, time, salt, plain), "ciphertext")
            same(priv.decrypt(cipher, boots, time, salt), plain, "decryption of own ciphertext")
            same(other.decrypt(cipher, boots, time, salt), plain, "decryption by the other backend")
            sent.append((cipher, boots, time, salt, plain))
            ctx.nontrivial(len(data) > 16 or len(sent) > 1)
        elif kind == 1:                     # a peer's ciphertext
            salt = ur.hashlib.md5(data).digest()[:8]
            cipher = ur.encrypt(name, key, boots, time, salt, data)
            plain_ok(name, data, priv.decrypt(cipher, boots, time, salt), "peer ciphertext")
            ctx.label("peer")
        elif sent:                          # decryption has no memory
            cipher, b, t, salt, plain = sent[boots % len(sent)]
            same(priv.decrypt(cipher, b, t, salt), plain, "repeated decryption")
            ctx.label("again")


@with_urandom
def many(case, ctx):
    """Long runs, with instances created under the same key along the way."""
    (package, name), key, _, count, boots, renew = case
    cls = BACKENDS[package, name]
    priv = cls(key)
    salts = set()
    ctx.label(package, name)
    ctx.nontrivial()
    for i in range(count):
        if renew and i % renew == renew - 1:
            priv = cls(key)
            ctx.label("new instance")
        cipher, salt = priv.encrypt(b"payload%d" % i, boots, i)
        require(salt not in salts, "salt {} used twice in {} encryptions", salt.hex(), i + 1)
        salts.add(salt)
        plain_ok(name, b"payload%d" % i, ur.decrypt(name, key, boots, i, salt, cipher), "message")


@with_urandom
def lengths(case, ctx):
    (package, name), key, _, cipher, salt, boots, time = case
    priv = BACKENDS[package, name](key)
    good = len(salt) == 8 and (name == "aes" or len(cipher) % 8 == 0)
    ctx.label(package, name, "valid" if good else "invalid", f"salt={len(salt)}")
    ctx.nontrivial(not good or len(cipher) > 16)
    if good:
        same(priv.decrypt(cipher, boots, time, salt),
             ur.decrypt(name, key, boots, time, salt, cipher), "decryption of random ciphertext")
    else:
        raises(DecryptionError, lambda: priv.decrypt(cipher, boots, time, salt),
               f"ciphertext of {len(cipher)} and salt of {len(salt)} bytes")


def keys():
    return st.one_of(st.binary(min_size=16, max_size=16), gen.binary(16, 64),
                     st.sampled_from([bytes(16), b"\xff" * 16, bytes(range(20))]))


def plains():
    return st.one_of(st.binary(min_size=1, max_size=40), gen.binary(0, 64), st.tuples(
        st.integers(0, 600), st.integers(0, 255)).map(
            lambda t: bytes((t[1] + i) % 256 for i in range(t[0]))))


def starts():
    """Up to three urandom results; the salt counter may start right before its wrap."""
    one = st.one_of(st.binary(min_size=8, max_size=8), st.sampled_from(
        [b"\xff" * 8, bytes(8), b"\xff" * 7 + b"\xfe", b"\xff" * 3 + b"\xfd" + b"\xff" * 3 + b"\xfd",
         b"\x7f" + b"\xff" * 7]))
    return st.one_of(st.tuples(one), st.just(()))


SUBS = [
    Sub("session", lambda: st.tuples(st.sampled_from(NAMES), keys(), starts(), gen.sized(
        st.tuples(st.sampled_from([0, 0, 0, 1, 2]), plains(), gen.uint31(), gen.uint31()), 1, 8)),
        session, 1600),
    Sub("many", lambda: st.tuples(st.sampled_from(NAMES), keys(), starts(), st.integers(2, 700),
                                  gen.uint31(), st.sampled_from([0, 0, 0, 1, 7, 100])), many, 120),
    Sub("lengths", lambda: st.tuples(
        st.sampled_from(NAMES), keys(), starts(), st.one_of(plains(), st.binary(max_size=20),
            gen.sized(st.binary(min_size=8, max_size=8), 1, 5).map(b"".join)),
        st.one_of(st.binary(max_size=20), st.binary(min_size=8, max_size=8)), gen.uint31(),
        gen.uint31()), lengths, 6000),
]
