"""Between literals (see ref.py) and objects of the code under test."""
import socket

from snmp.ber import *
from snmp.smi import *
from snmp.pdu import *

from harness.api import Violation

CLS = {
    "int": Integer32, "oct": OctetString, "null": Null, "oid": OID, "ip": IpAddress,
    "c32": Counter32, "g32": Gauge32, "tt": TimeTicks, "opaque": Opaque, "c64": Counter64,
    "nso": NoSuchObject, "nsi": NoSuchInstance, "eomv": EndOfMibView,
}
PDUS = {
    "get": GetRequestPDU, "next": GetNextRequestPDU, "resp": ResponsePDU, "set": SetRequestPDU,
    "bulk": GetBulkRequestPDU, "inform": InformRequestPDU, "trap2": SNMPv2TrapPDU,
    "report": ReportPDU,
}


def to_value(v):
    kind = v[0]
    cls = CLS[kind]
    if kind in ("null", "nso", "nsi", "eomv"):
        return cls()
    if kind == "oid":
        return cls(*v[1])
    if kind == "ip":
        return cls(socket.inet_ntoa(v[1]))
    return cls(v[1])


def from_value(obj, kind=None):
    """Literal of a decoded value; a wrong class or a non-bytes payload is a violation."""
    if kind is None:
        for k, cls in CLS.items():
            if type(obj) is cls:
                kind = k
                break
        else:
            raise Violation(f"value of unknown type {type(obj).__name__}")
    if type(obj) is not CLS[kind]:
        raise Violation(f"decoded a {type(obj).__name__}, expected {CLS[kind].__name__}")
    if kind in ("null", "nso", "nsi", "eomv"):
        return (kind,)
    if kind == "oid":
        return (kind, tuple(obj))
    if kind == "ip":
        if socket.inet_aton(obj.addr) != obj.data:
            raise Violation(f"IpAddress text {obj.addr!r} disagrees with data {obj.data!r}")
        return (kind, obj.data)
    if kind in ("oct", "opaque"):
        data = obj.data
        if not isinstance(data, bytes):
            raise Violation(f"data attribute is {type(data).__name__}, not bytes")
        return (kind, data)
    return (kind, obj.value)


def to_varbind(vb):
    return VarBind(OID(*vb[0]), to_value(vb[1]))


def to_pdu(pdu):
    kind, rid, a, b, vbs = pdu
    cls = PDUS[kind]
    objs = [to_varbind(vb) for vb in vbs]
    if kind == "bulk":
        return cls(*objs, requestID=rid, nonRepeaters=a, maxRepetitions=b)
    return cls(*objs, requestID=rid, errorStatus=ErrorStatus(a), errorIndex=b)


def from_vbl(vbl):
    out = []
    for vb in vbl:
        if type(vb) is not VarBind:
            raise Violation(f"variable binding is a {type(vb).__name__}")
        if type(vb.name) is not OID:
            raise Violation(f"name is a {type(vb.name).__name__}")
        out.append((tuple(vb.name), from_value(vb.value)))
    if len(vbl) != len(out):
        raise Violation("len() of a variable binding list disagrees with iteration")
    return tuple(out)


def from_pdu(obj):
    for kind, cls in PDUS.items():
        if type(obj) is cls:
            break
    else:
        raise Violation(f"PDU of unknown type {type(obj).__name__}")
    if kind == "bulk":
        a, b = obj.nonRepeaters, obj.maxRepetitions
    else:
        a, b = int(obj.errorStatus), obj.errorIndex
        if not isinstance(obj.errorStatus, ErrorStatus):
            raise Violation("errorStatus is not an ErrorStatus")
    return (kind, obj.requestID, a, b, from_vbl(obj.variableBindings))
