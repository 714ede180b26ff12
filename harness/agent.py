"""An independent RFC 3414 agent."""
from harness import ref, usmref as ur

STATS = (1, 3, 6, 1, 6, 3, 15, 1, 1)
UNSUPPORTED, NOTINTIME, UNKNOWNUSER, UNKNOWNENGINE, WRONGDIGEST, DECRYPTION = (
    STATS + (n, 0) for n in (1, 2, 3, 4, 5, 6))


class Agent:
    """A conforming authoritative engine, RFC 3414 3.2."""

    def __init__(self, world, engine, users, boots=1, uptime=0, hints=True, echo=True):
        self.world, self.engine, self.boots = world, engine, boots
        self.users = {u.name: u for u in users}
        self.booted = world.now - uptime
        self.hints = hints          # unauthenticated reports carry boots and time
        self.echo = echo            # they repeat the user name
        self.counter = 0
        self.salt = 0
        self.log = []               # what each processed message turned out to be
        self.answer = None          # answer(message) -> response PDU or None

    @property
    def time(self):
        return max(0, min(ur.MAX31, int(self.world.now - self.booted)))

    def reboot(self, boots=1):
        self.boots = min(ur.MAX31, self.boots + boots)
        self.booted = self.world.now

    def seal(self, msgid, level, user, scoped, name=None, boots=None, time=None, engine=None):
        self.salt += 1
        return ur.seal(msgid, level, self.engine if engine is None else engine,
                       self.boots if boots is None else boots,
                       self.time if time is None else time, user, scoped,
                       salt=self.salt.to_bytes(8, "big"), name=name)

    def report(self, o, oid, rid, user=None, level=0, name=None):
        self.counter += 1
        scoped = ref.enc_scoped(self.engine, b"", ("report", rid, 0, 0, (
            (oid, ("c32", self.counter)),)))
        if not o.reportable:
            return None
        self.log.append(("report", oid[-2]))
        if level:
            return self.seal(o.id, level, user, scoped)
        zero = not self.hints
        return self.seal(o.id, 0, None, scoped, name=o.user if self.echo else b"",
                         boots=0 if zero else None, time=0 if zero else None)

    def process(self, data):
        """-> reply bytes or None"""
        try:
            o = ur.Opened(data)
        except ref.Reject:
            return None
        rid = 0
        if not o.flags & 2:
            rid = o.scoped()[2][1]
        if o.engine != self.engine:
            return self.report(o, UNKNOWNENGINE, rid)
        user = self.users.get(o.user)
        if user is None:
            return self.report(o, UNKNOWNUSER, rid)
        if o.level & ~user.level:
            return self.report(o, UNSUPPORTED, rid)
        if o.level:
            if not o.authentic(user):
                return self.report(o, WRONGDIGEST, rid)
            if (self.boots == ur.MAX31 or o.boots != self.boots
                    or abs(o.time - self.time) > 150):
                return self.report(o, NOTINTIME, rid, user, 1)
        try:
            scoped = o.scoped(user)
        except ref.Reject:
            return self.report(o, DECRYPTION, rid)
        engine, context, pdu = scoped
        if engine != self.engine:
            return None
        self.log.append(("request", o))
        reply = self.answer(o, pdu, user)
        if reply is None:
            return None
        if isinstance(reply, bytes):
            return reply
        return self.seal(o.id, o.level, user, ref.enc_scoped(engine, context, reply), name=o.user)
