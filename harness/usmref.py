"""Independent RFC 3414 / 3826 / 7860 reference.  Uses nothing from the code under test."""
import hashlib
from functools import lru_cache

from Crypto.Cipher import AES, DES

from harness import ref

# name -> (hash, HMAC block size, truncated digest length, class name in snmp.security.usm.auth)
AUTH = {
    "md5": (hashlib.md5, 64, 12, "HmacMd5"),
    "sha1": (hashlib.sha1, 64, 12, "HmacSha"),
    "sha224": (hashlib.sha224, 64, 16, "HmacSha224"),
    "sha256": (hashlib.sha256, 64, 24, "HmacSha256"),
    "sha384": (hashlib.sha384, 128, 32, "HmacSha384"),
    "sha512": (hashlib.sha512, 128, 48, "HmacSha512"),
}
PRIV = {"aes": "AesCfb128", "des": "DesCbc"}
NOAUTH, AUTHNOPRIV, AUTHPRIV = 0, 1, 3
MAX31 = 2**31 - 1


@lru_cache(maxsize=4096)
def password_key(algo, password):
    """RFC 3414 A.2: hash of the password repeated to exactly 1048576 octets."""
    copies = -(-1048576 // len(password))
    return AUTH[algo][0]((password * copies)[:1048576]).digest()


def localize(algo, key, engine):
    return AUTH[algo][0](key + engine + key).digest()


@lru_cache(maxsize=8192)
def localized(algo, password, engine):
    return localize(algo, password_key(algo, password), engine)


def mac(algo, key, data):
    """RFC 2104 with the RFC 3414/7860 truncation."""
    h, block, n, _ = AUTH[algo]
    if len(key) > block:
        key = h(key).digest()
    key = key + bytes(block - len(key))
    inner = h(bytes(b ^ 0x36 for b in key) + data).digest()
    return h(bytes(b ^ 0x5c for b in key) + inner).digest()[:n]


def maclen(algo):
    return AUTH[algo][2]


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def aes_crypt(key, boots, time, salt, data, encrypt):
    """CFB128 built on the block cipher, RFC 3826 3.1.2."""
    ecb = AES.new(key[:16], AES.MODE_ECB)
    feedback = boots.to_bytes(4, "big") + time.to_bytes(4, "big") + salt
    out = b""
    for i in range(0, len(data), 16):
        chunk = data[i:i + 16]
        result = xor(ecb.encrypt(feedback), chunk)
        out += result
        feedback = result if encrypt else chunk
    return out


def des_crypt(key, salt, data, encrypt):
    """CBC built on the block cipher, RFC 3414 8.1.1."""
    ecb = DES.new(key[:8], DES.MODE_ECB)
    chain = xor(key[8:16], salt)
    out = b""
    for i in range(0, len(data), 8):
        chunk = data[i:i + 8]
        if encrypt:
            chain = ecb.encrypt(xor(chunk, chain))
            out += chain
        else:
            out += xor(ecb.decrypt(chunk), chain)
            chain = chunk
    return out


def encrypt(priv, key, boots, time, salt, data):
    if priv == "aes":
        return aes_crypt(key, boots, time, salt, data, True)
    return des_crypt(key, salt, data + bytes(-len(data) % 8), True)


def decrypt(priv, key, boots, time, salt, data):
    if len(salt) != 8:
        raise ref.Reject("salt length")
    if priv == "aes":
        return aes_crypt(key, boots, time, salt, data, False)
    if len(data) % 8:
        raise ref.Reject("ciphertext length")
    return des_crypt(key, salt, data, False)


class User:
    """Credentials as an administrator would configure them."""

    def __init__(self, name, auth=None, authpw=None, priv=None, privpw=None):
        self.name = name
        self.auth, self.authpw, self.priv, self.privpw = auth, authpw, priv, privpw

    @property
    def level(self):
        return NOAUTH if self.auth is None else AUTHNOPRIV if self.priv is None else AUTHPRIV

    def authkey(self, engine):
        return localized(self.auth, self.authpw, engine)

    def privkey(self, engine):
        return localized(self.auth, self.privpw, engine)


class Opened:
    """A parsed v3 message, before any security processing."""

    def __init__(self, data):
        reader = ref.Reader()
        body, _ = reader.expect(data, 0x30, True)
        version, rest = reader.int32(body)
        if version != 3:
            raise ref.Reject("version")
        (self.id, self.maxsize, self.flags, self.model), rest = reader.header(rest)
        usm, payload = reader.octets(rest)
        (self.engine, self.boots, self.time, self.user, self.auth, self.salt) = reader.usm(usm)
        self.data = data
        self.level = self.flags & 3
        self.reportable = bool(self.flags & 4)
        # where the digest lies: what follows it is the salt TLV and then the payload
        body, _ = reader.expect(usm, 0x30, True)
        for step in (reader.octets, reader.int32, reader.int32, reader.octets, reader.octets):
            _, body = step(body)
        self.end = len(data) - len(payload) - len(body)
        self.start = self.end - len(self.auth)
        assert data[self.start:self.end] == self.auth
        self.payload = payload

    def authentic(self, user):
        if len(self.auth) != maclen(user.auth):
            return False
        blank = self.data[:self.start] + bytes(len(self.auth)) + self.data[self.end:]
        return mac(user.auth, user.authkey(self.engine), blank) == self.auth

    def scoped(self, user=None, kinds=tuple(ref.PDU_IDENT)):
        """-> (contextEngineID, contextName, pdu); decrypts when the privacy flag is set."""
        reader = ref.Reader()
        if not self.flags & 2:
            return reader.scoped(self.payload, kinds)
        cipher, _ = reader.octets(self.payload, True)
        plain = decrypt(user.priv, user.privkey(self.engine), self.boots, self.time, self.salt,
                        cipher)
        return reader.scoped(plain, kinds, whole=False)


def seal(msgid, flags, engine, boots, time, user, scoped, salt=b"\0" * 8, maxsize=65507, model=3,
         name=None, garble=None):
    """A complete message.  flags: level plus 4 for reportable.  user: User (or None at noAuth)."""
    name = user.name if name is None else name
    level = flags & 3
    if level == AUTHPRIV:
        key = user.privkey(engine)
        payload = ref.enc_oct(encrypt(user.priv, key, boots, time, salt, scoped))
    else:
        salt = b""
        payload = scoped
    digest = bytes(maclen(user.auth)) if level else b""
    usm = ref.enc_usm(engine, boots, time, name, digest, salt)
    data = ref.enc_v3(ref.enc_header(msgid, maxsize, flags, model), usm, payload)
    if level:
        at = len(data) - len(payload) - len(ref.enc_oct(salt)) - len(digest)
        assert data[at:at + len(digest)] == digest
        digest = mac(user.auth, user.authkey(engine), data)
        data = data[:at] + digest + data[at + len(digest):]
    return data


class Clock:
    """What a non-authoritative engine knows about one authoritative engine (RFC 3414 2.3, 3.2.7).
    Timestamps must be exactly representable (multiples of 1/8)."""

    def __init__(self):
        self.known = False
        self.auth = False
        self.boots = 0
        self.base = 0

    def now(self, at):
        """(boots, time) to put into a message sent at `at`."""
        if not self.known:
            return 0, 0
        return self.boots, max(0, min(MAX31, int((at - self.base) // 1)))

    def set(self, boots, time, at):
        self.known = True
        self.boots = boots
        self.base = at - time

    def hint(self, boots, time, at):
        if not self.auth:
            self.set(boots, time, at)

    def update(self, boots, time, at):
        """An authentic message.  -> accepted?"""
        if not self.auth:
            self.set(boots, time, at)
            self.auth = True
        elif boots > self.boots:
            self.set(boots, time, at)
        elif boots == self.boots and time > self.now(at)[1]:
            self.set(boots, time, at)
        if self.boots >= MAX31 or boots < self.boots:
            return False
        return self.now(at)[1] - time <= 150
