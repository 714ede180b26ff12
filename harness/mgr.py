"""Managers in the simulated world: workloads, community agents, observation of requests."""
from harness import ref, sim

sim.install()

from snmp.engine import Engine
from snmp.manager import Timeout
from snmp.message import ProtocolVersion
from snmp.pdu import ErrorResponse, ErrorStatus

from harness import conv
from harness.agent import (Agent, STATS, UNSUPPORTED, NOTINTIME, UNKNOWNUSER, UNKNOWNENGINE,
                           WRONGDIGEST, DECRYPTION)
from harness.api import Violation, require, same, short

U = sim.UNIT
ARC = (1, 3, 6, 1, 4, 1, 9999)
VERSIONS = {0: ProtocolVersion.SNMPv1, 1: ProtocolVersion.SNMPv2c, 3: ProtocolVersion.SNMPv3}
REQUESTS = ("get", "next", "set", "bulk", "inform", "trap2", "report", "resp")
ENDLESS = 10**9


class Req:
    """One request as the harness sees it."""

    def __init__(self, index, manager, kind, timeout, period):
        self.index, self.manager, self.kind = index, manager, kind
        self.timeout, self.period = timeout, period
        self.handle = None
        self.sent = []              # (time, data, parsed, inside a delivery)
        self.answers = []           # (time, outcome) delivered while pending
        self.results = []           # outcomes of wait()
        self.open = True            # not yet collected by wait()
        self.rid = None
        self.community = None
        self.behave = None
        self.t0 = self.t1 = None    # clock before and after the call that created it

    @property
    def name(self):
        return ARC + (self.index,)


def outcome(fn):
    """-> ("ok", varbinds) | ("error", status, cause) | ("timeout",) | ("raised", exception)"""
    try:
        result = fn()
    except ErrorResponse as err:
        return ("error", int(err.status), err.cause)
    except Timeout:
        return ("timeout",)
    except Violation:
        raise
    except Exception as err:
        return ("raised", err)
    return ("ok", conv.from_vbl(result))


def call(manager, kind, vbs, bulk=(0, 0), **kw):
    """Invoke one operation with bindings given as literals."""
    from snmp.smi import OID
    if kind == "set":
        return manager.set(*[(OID(*oid), conv.to_value(v)) for oid, v in vbs], **kw)
    names = [OID(*oid) for oid, _ in vbs]
    if kind == "bulk":
        return manager.getBulk(*names, nonRepeaters=bulk[0], maxRepetitions=bulk[1], **kw)
    return {"get": manager.get, "next": manager.getNext}[kind](*names, **kw)


def parse_community(data):
    return ref.Reader().community(data, REQUESTS)


def index_of(pdu):
    """Which request a PDU belongs to, from the marker in its first binding."""
    if pdu[4] and pdu[4][0][0][:len(ARC)] == ARC and len(pdu[4][0][0]) == len(ARC) + 1:
        return pdu[4][0][0][-1]
    return None


class Fates:
    """What happens to the datagrams, in the order in which they are sent.  A fate is a tuple with
    one entry per copy of the request that reaches the agent; an entry is the tuple of delays (in
    units) after which copies of the response to it reach the manager."""

    def __init__(self, script, default=((4,),)):
        self.script, self.default, self.used = script, default, 0

    def next(self):
        self.used += 1
        if self.used <= len(self.script):
            return self.script[self.used - 1]
        return self.default
