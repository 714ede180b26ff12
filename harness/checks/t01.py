"""T01: transport addresses normalize deterministically or are refused."""
import ipaddress
import socket

from hypothesis import strategies as st

from harness import bootstrap, gen
from harness.api import Sub, raises, require, same, short

from snmp.transport import AddressUsage, TransportDomain
from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket

RULE = ("addresses of every shape (nothing, host, pair, other tuples, other types) with valid, "
        "nearly valid and random hosts and ports, for both families and every usage, compared with "
        "a reference built on the ipaddress module; non-trivial = a tuple or an invalid address")
ASSUMPTIONS = ["where inet_pton and Python's ipaddress disagree about a host, either is right"]

CLASSES = {4: UdpIPv4Socket, 6: UdpIPv6Socket}
USAGES = {"listener": AddressUsage.LISTENER, "trap": AddressUsage.TRAP_LISTENER,
          "sender": AddressUsage.SENDER, None: None}
PORTS = {"listener": 161, "trap": 162, "sender": 0, None: 0}
WILD = {4: "0.0.0.0", 6: "::"}


def valid_host(family, host):
    """True, False or None (open)"""
    if "\0" in host or "%" in host:
        return False
    try:
        (ipaddress.IPv4Address if family == 4 else ipaddress.IPv6Address)(host)
        mine = True
    except ValueError:
        mine = False
    try:
        socket.inet_pton(socket.AF_INET if family == 4 else socket.AF_INET6, host)
        theirs = True
    except (OSError, ValueError):
        theirs = False
    return mine if mine == theirs else None


def expect(family, usage, address):
    """-> ("ok", pair) | ("raise", kinds) | ("open",)"""
    strict = usage in ("listener", "trap")
    if isinstance(address, tuple):
        if len(address) != 2:
            return ("raise", (ValueError, TypeError))
        host, port = address
    else:
        host, port = address, PORTS[usage]
        if address is None:
            host = WILD[family]
    if type(port) is bool:
        return ("open",)
    if host == "" and not strict:
        host = WILD[family]
    problems = set()
    if not isinstance(host, str):
        problems.add(TypeError)
    else:
        valid = valid_host(family, host)
        if valid is None:
            return ("open",)
        if not valid:
            problems.add(ValueError)
    if type(port) is not int:
        problems.add(TypeError)
    elif not 0 <= port <= 65535 or port == 0 and strict:
        problems.add(ValueError)
    if problems:
        return ("raise", tuple(problems))
    return ("ok", (host, port))


def run(case, ctx):
    family, usage, address = case
    cls = CLASSES[family]
    want = expect(family, usage, address)
    what = f"{cls.__name__}.normalizeAddress({address!r}, {usage})"
    ctx.label(want[0], f"usage {usage}", type(address).__name__)
    ctx.nontrivial(isinstance(address, tuple) or want[0] == "raise")

    def normalize(x, *args):
        return cls.normalizeAddress(x, *args)
    args = (USAGES[usage],) if usage is not None else ()
    if want[0] == "raise":
        raises(want[1], lambda: normalize(address, *args), what)
        return
    try:
        got = normalize(address, *args)
    except (ValueError, TypeError):
        require(want[0] == "open", "{} was refused", what)
        return
    require(type(got) is tuple and len(got) == 2, "{} returned {}", what, got)
    if want[0] == "ok":
        same(got, want[1], what)
        require(type(got[0]) is str and type(got[1]) is int, "{} returned {}", what, got)
    same(normalize(got, *args), got, what + " once more")
    if usage is None:
        same(normalize(address, None), got, what + " with an explicit None")


def hosts():
    octet = st.one_of(st.integers(0, 255).map(str), st.sampled_from(
        ["256", "-1", "01", "00", "", " 1", "1 ", "0x1", "1e1", "٣", "999", "1.2"]))
    v4 = st.one_of(st.ip_addresses(v=4).map(str), st.ip_addresses(v=4).map(str),
                   st.lists(octet, min_size=1, max_size=5).map(".".join))
    group = st.one_of(st.integers(0, 65535).map("{:x}".format), st.sampled_from(
        ["", "", "10000", "g", "0000", "00000", "1.2.3.4", "::", " "]))
    v6 = st.one_of(st.ip_addresses(v=6).map(str), st.ip_addresses(v=6).map(lambda a: a.exploded),
                   st.lists(group, min_size=1, max_size=9).map(":".join),
                   st.sampled_from(["::", "::1", "::ffff:1.2.3.4", "fe80::1%lo", "[::1]", ":::"]))
    odd = st.one_of(st.sampled_from(["", "localhost", "127.1", "1.2.3.4\0", "1.2.3.4:161", "\udc80",
                                     "127.0.0.1 ", "\n", "0", "2130706433", "*"]),
                    st.text(max_size=6))
    return gen.pick(v4, v4, v6, v6, odd)


def cases():
    return st.sampled_from([4, 6]).flatmap(lambda family: st.tuples(
        st.just(family), st.sampled_from(["listener", "trap", "sender", None]),
        addresses(family)))


def addresses(family):
    port = gen.pick(st.integers(1, 65535), st.integers(1, 65535), gen.ints(-2, 70000),
                    st.sampled_from([0, 161, 162, 65535, 65536, -1, 2**31]))
    oddport = st.sampled_from([None, "161", b"161", 161.0, 0.5, (1,), "", float(2**70), 1j])
    oddhost = st.sampled_from([None, 0, 1, b"127.0.0.1", b"", 1.5, ("127.0.0.1",), 2130706433, True])
    good = st.ip_addresses(v=family).map(str)
    host = gen.pick(good, good, good, hosts(), hosts(), st.just(""), oddhost)
    pair = st.tuples(host, gen.pick(*[port] * 6, oddport))
    return gen.pick(st.none(), hosts(), good, pair, pair, pair, pair, oddhost,
                    st.lists(st.one_of(good, port), max_size=3).map(tuple))


SUBS = [Sub("normalize", cases, run, 24000)]
