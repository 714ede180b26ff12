"""Independent reference codec.  Uses nothing from the code under test.

Values are literals: ("int", n) ("oct", b) ("null",) ("oid", (..)) ("ip", b4) ("c32", n)
("g32", n) ("tt", n) ("opaque", b) ("c64", n) ("nso",) ("nsi",) ("eomv",)
PDUs are (kind, requestID, a, b, ((oid, value), ...)) where (a, b) is (errorStatus, errorIndex) or
(nonRepeaters, maxRepetitions).
"""

IDENT = {
    "int": 0x02, "oct": 0x04, "null": 0x05, "oid": 0x06, "ip": 0x40, "c32": 0x41, "g32": 0x42,
    "tt": 0x43, "opaque": 0x44, "c64": 0x46, "nso": 0x80, "nsi": 0x81, "eomv": 0x82,
}
KIND = {v: k for k, v in IDENT.items()}
RANGE = {
    "int": (-2**31, 2**31 - 1), "c32": (0, 2**32 - 1), "g32": (0, 2**32 - 1),
    "tt": (0, 2**32 - 1), "c64": (0, 2**64 - 1),
}
NULLS = ("null", "nso", "nsi", "eomv")
PDU_IDENT = {
    "get": 0xa0, "next": 0xa1, "resp": 0xa2, "set": 0xa3, "bulk": 0xa5, "inform": 0xa6,
    "trap2": 0xa7, "report": 0xa8,
}
PDU_KIND = {v: k for k, v in PDU_IDENT.items()}


# ---------------------------------------------------------------- encoding
def enc_len(n):
    if n < 128:
        return bytes([n])
    body = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 + len(body)]) + body


def enc_ident(cls, constructed, number):
    lead = cls * 64 + (32 if constructed else 0)
    if number < 31:
        return bytes([lead + number])
    groups = [number % 128]
    number //= 128
    while number > 0:
        groups.insert(0, 128 + number % 128)
        number //= 128
    return bytes([lead + 31] + groups)


def tlv(ident, body):
    return bytes([ident]) + enc_len(len(body)) + body


def int_body(n):
    size = 1
    while not -(1 << (8 * size - 1)) <= n < (1 << (8 * size - 1)):
        size += 1
    return (n % (1 << (8 * size))).to_bytes(size, "big")


def subid(n):
    out = [n % 128]
    n //= 128
    while n:
        out.append(128 + n % 128)
        n //= 128
    return bytes(reversed(out))


def oid_body(oid):
    oid = tuple(oid)
    first = oid[0] if len(oid) > 0 else 0
    second = oid[1] if len(oid) > 1 else 0
    return subid(first * 40 + second) + b"".join(subid(n) for n in oid[2:])


def enc_int(n):
    return tlv(0x02, int_body(n))


def enc_oct(b):
    return tlv(0x04, b)


def enc_oid(oid):
    return tlv(0x06, oid_body(oid))


def enc_seq(*parts):
    return tlv(0x30, b"".join(parts))


def value_body(v):
    kind = v[0]
    if kind in RANGE:
        return int_body(v[1])
    if kind in NULLS:
        return b""
    if kind == "oid":
        return oid_body(v[1])
    return v[1]


def enc_value(v):
    return tlv(IDENT[v[0]], value_body(v))


def enc_varbind(vb):
    return enc_seq(enc_oid(vb[0]), enc_value(vb[1]))


def enc_vbl(vbs):
    return enc_seq(*[enc_varbind(vb) for vb in vbs])


def enc_pdu(pdu):
    kind, rid, a, b, vbs = pdu
    return tlv(PDU_IDENT[kind], enc_int(rid) + enc_int(a) + enc_int(b) + enc_vbl(vbs))


def enc_community(version, community, pdu):
    return enc_seq(enc_int(version), enc_oct(community), enc_pdu(pdu))


def enc_scoped(engine, name, pdu):
    return enc_seq(enc_oct(engine), enc_oct(name), enc_pdu(pdu))


def enc_header(msgid, maxsize, flags, model=3):
    return enc_seq(enc_int(msgid), enc_int(maxsize), enc_oct(bytes([flags])), enc_int(model))


def enc_usm(engine, boots, time, user, auth, priv):
    return enc_seq(enc_oct(engine), enc_int(boots), enc_int(time), enc_oct(user), enc_oct(auth),
                   enc_oct(priv))


def enc_v3(header, usm, payload):
    """header, payload: encoded; usm: encoded USM sequence (wrapped here)."""
    return enc_seq(enc_int(3), header, enc_oct(usm), payload)


# ---------------------------------------------------------------- decoding
class Reject(Exception):
    """The bytes are not an encoding of the requested thing."""


class Reader:
    """Strict about structure.  `soft` is set when the input uses a form that BER forbids or
    discourages but whose meaning is still unambiguous: there a decoder may accept (with this
    meaning) or reject."""

    def __init__(self):
        self.soft = False

    def ident(self, data):
        if not data:
            raise Reject("missing tag")
        b = data[0]
        cls, con, num = b >> 6, bool(b & 0x20), b & 31
        rest = data[1:]
        if num == 31:
            num = 0
            first = True
            while True:
                if not rest:
                    raise Reject("incomplete tag")
                c, rest = rest[0], rest[1:]
                if first and c == 0x80:
                    self.soft = True
                first = False
                num = num * 128 + (c & 127)
                if not c & 128:
                    break
            if num < 31:
                self.soft = True
        return (cls, con, num), rest

    def tlv(self, data):
        tag, rest = self.ident(data)
        if not rest:
            raise Reject("missing length")
        n, rest = rest[0], rest[1:]
        if n & 0x80:
            k = n & 0x7f
            if k == 0:
                self.soft = True            # indefinite form; SNMP forbids it, read here as 0
            if k == 127:
                self.soft = True
            if len(rest) < k:
                raise Reject("incomplete length")
            n = int.from_bytes(rest[:k], "big")
            rest = rest[k:]
        if len(rest) < n:
            raise Reject("incomplete value")
        return tag, rest[:n], rest[n:]

    def expect(self, data, ident, whole=False):
        tag, body, rest = self.tlv(data)
        want = (ident >> 6, bool(ident & 0x20), ident & 31)
        if tag != want:
            raise Reject(f"tag {tag}, expected {want}")
        if whole and rest:
            raise Reject("trailing bytes")
        return body, rest

    # contents
    def int_of(self, body, lo=None, hi=None):
        if not body:
            self.soft = True
            n = 0
        else:
            n = int.from_bytes(body, "big", signed=True)
        if lo is not None and not lo <= n <= hi:
            raise Reject("out of range")
        return n

    def oid_of(self, body, limit=True):
        if not body:
            raise Reject("empty oid")
        subs = []
        n = 0
        fresh = True
        for c in body:
            if fresh and c == 0x80:
                self.soft = True
            n = n * 128 + (c & 127)
            fresh = not c & 128
            if fresh:
                subs.append(n)
                n = 0
        if not fresh:
            raise Reject("unterminated sub-identifier")
        head = subs[0]
        if head >= 120:
            raise Reject("bad first sub-identifier")
        if body[0] & 0x80:
            # a multi-octet first sub-identifier worth less than 120 is not minimal
            self.soft = True
        oid = (head // 40, head % 40) + tuple(subs[1:])
        if limit and (len(oid) > 128 or any(s >= 2**32 for s in oid)):
            raise Reject("oid too large")
        return oid

    def value_of(self, kind, body):
        if kind in RANGE:
            return (kind, self.int_of(body, *RANGE[kind]))
        if kind in NULLS:
            if body:
                self.soft = True
            return (kind,)
        if kind == "oid":
            return (kind, self.oid_of(body))
        if kind == "oct" and len(body) > 65535:
            raise Reject("too long")
        if kind == "ip" and len(body) != 4:
            raise Reject("bad address")
        return (kind, body)

    def value(self, data, kind):
        body, _ = self.expect(data, IDENT[kind], True)
        return self.value_of(kind, body)

    def int32(self, data, whole=False):
        body, rest = self.expect(data, 0x02, whole)
        return self.int_of(body, -2**31, 2**31 - 1), rest

    def octets(self, data, whole=False):
        body, rest = self.expect(data, 0x04, whole)
        if len(body) > 65535:
            raise Reject("too long")
        return body, rest

    # structures
    def varbind_of(self, body):
        name, rest = self.expect(body, 0x06)
        oid = self.oid_of(name)
        tag, vbody, tail = self.tlv(rest)
        if tail:
            raise Reject("trailing bytes")
        cls, con, num = tag
        ident = cls * 64 + (32 if con else 0) + num
        if num >= 31 or ident not in KIND:
            raise Reject("unknown value type")
        return (oid, self.value_of(KIND[ident], vbody))

    def varbind(self, data):
        body, _ = self.expect(data, 0x30, True)
        return self.varbind_of(body)

    def vbl(self, data):
        body, _ = self.expect(data, 0x30, True)
        out = []
        while body:
            item, body = self.expect(body, 0x30)
            out.append(self.varbind_of(item))
        return tuple(out)

    def pdu_of(self, kind, body):
        rid, rest = self.int32(body)
        a, rest = self.int32(rest)
        b, rest = self.int32(rest)
        vbs = self.vbl(rest)
        if kind == "bulk":
            if a < 0 or b < 0:
                raise Reject("negative bulk count")
        else:
            if not 0 <= a <= 18:
                raise Reject("invalid error status")
            if b < 0 and a == 0:
                self.soft = True            # meaningless index next to noError
            elif b < 0:
                raise Reject("invalid error index")
            elif b > len(vbs):
                if a == 0:
                    self.soft = True
                else:
                    raise Reject("invalid error index")
        return (kind, rid, a, b, vbs)

    def pdu(self, data, kinds):
        tag, body, rest = self.tlv(data)
        if rest:
            raise Reject("trailing bytes")
        cls, con, num = tag
        kind = PDU_KIND.get(cls * 64 + (32 if con else 0) + num) if num < 31 else None
        if kind not in kinds:
            raise Reject("unexpected PDU type")
        return self.pdu_of(kind, body)

    def community(self, data, kinds, versions=(0, 1)):
        body, _ = self.expect(data, 0x30, True)
        version, rest = self.int32(body)
        if version not in versions:
            raise Reject("version")
        community, rest = self.octets(rest)
        return (version, community, self.pdu(rest, kinds))

    def scoped_of(self, body, kinds):
        engine, rest = self.octets(body)
        name, rest = self.octets(rest)
        return (engine, name, self.pdu(rest, kinds))

    def scoped(self, data, kinds, whole=True):
        body, rest = self.expect(data, 0x30, whole)
        return self.scoped_of(body, kinds)

    def header(self, data, whole=False):
        body, rest = self.expect(data, 0x30, whole)
        msgid, r = self.int32(body)
        maxsize, r = self.int32(r)
        flags, r = self.octets(r)
        model, r = self.int32(r, True)
        if msgid < 0 or maxsize < 484:
            raise Reject("header range")
        if model != 3:
            raise Reject("security model")
        if not flags:
            raise Reject("no flags")
        if len(flags) > 1 or flags[0] & 0xf8:
            self.soft = True
        if flags[0] & 3 == 2:
            raise Reject("priv without auth")
        return (msgid, maxsize, flags[0] & 7, model), rest

    def usm(self, data):
        body, _ = self.expect(data, 0x30, True)
        engine, r = self.octets(body)
        boots, r = self.int32(r)
        time, r = self.int32(r)
        user, r = self.octets(r)
        auth, r = self.octets(r)
        priv, r = self.octets(r, True)
        if boots < 0 or time < 0:
            raise Reject("negative boots or time")
        return (engine, boots, time, user, auth, priv)

    def v3(self, data, kinds):
        """-> (header, usm bytes, payload): payload is scoped tuple or ciphertext bytes."""
        body, _ = self.expect(data, 0x30, True)
        version, rest = self.int32(body)
        if version != 3:
            raise Reject("version")
        header, rest = self.header(rest)
        usm, rest = self.octets(rest)
        if header[2] & 2:
            payload, _ = self.octets(rest, True)
        else:
            payload = self.scoped(rest, kinds)
        return (header, usm, payload)


def attempt(fn):
    """-> (verdict, value): verdict is 'accept', 'soft' or 'reject'."""
    reader = Reader()
    try:
        value = fn(reader)
    except Reject:
        return "reject", None
    return ("soft" if reader.soft else "accept"), value
