"""T03: engines work end-to-end over real sockets and shut down cleanly."""
import gc
import heapq
import os
import selectors
import socket
import sys
import threading
import time

from hypothesis import strategies as st

from harness import bootstrap, conv, gen, ref, usmconf as uc, usmref as ur
from harness.agent import Agent
from harness.api import Sub, Violation, require, same, short

from snmp.engine import Engine
from snmp.manager import Timeout
from snmp.message import ProtocolVersion
from snmp.pdu import ErrorResponse
from snmp.smi import OID
from snmp.transport import TransportDomain
from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket

RULE = ("up to three engines at a time over real loopback sockets, each with managers of all "
        "versions, one thread per manager, exchanging generated request programs with real "
        "agents that answer at once, late, twice, after losing the first copy, after garbage, "
        "with an error or never, while other engines and managers are created (or cannot be), "
        "transports are connected, and engines are shut down in every way; threads and sockets are "
        "counted while the caller still refers to the closed engines; non-trivial = requests of at "
        "least two managers ran concurrently and something was pending, created or shut down meanwhile")
TIME_LIMIT = 150.0                  # a backstop; the check itself notices a hang earlier
ASSUMPTIONS = ["each manager is used by one thread and each engine by one thread at a time, as the "
               "documentation requires",
               "an answer that an agent gives arrives within 20 s; a hang is 40 s",
               "agents do not send more than msgMaxSize bytes"]

VERSIONS = {0: ProtocolVersion.SNMPv1, 1: ProtocolVersion.SNMPv2c, 3: ProtocolVersion.SNMPv3}
ARC = (1, 3, 6, 1, 4, 1, 9999)
NOW, DROP, TWICE, LATE, GARBAGE, NEVER, ERROR, WRONG = range(8)
SPACES = ["", "two"]
SPECS = [[(b"alice", "md5", b"maplesyrup", "aes", b"maplesyrup"),
          (b"bob", "sha256", b"swordfish", None, None),
          (b"carol", None, None, None, None)],
         [(b"alice", "sha1", b"swordfish", "des", b"correct horse"),
          (b"bob", "md5", b"different", None, None),
          (b"carol", "sha512", b"xxxxxxxx", "aes", b"yyyyyyyy")]]
COMMUNITIES = [b"public", b"private", b""]
PATIENCE = 40.0
ANSWERED = 20.0
UNANSWERED = 0.12
NOISE = [b"", b"\x30", b"\x30\x03\x02\x01\x00", b"\xff" * 40, b"\x30\x84\xff\xff\xff\xff",
         ref.enc_community(1, b"public", ("resp", 1, 0, 0, ())),
         ref.enc_community(0, b"public", ("resp", -5, 2, 1, ())),
         ref.enc_community(1, b"public", ("get", 7, 0, 0, ())),
         ref.enc_v3(ref.enc_header(1, 1472, 0), ref.enc_usm(b"\x80" * 8, 1, 1, b"", b"", b""),
                    ref.enc_scoped(b"\x80" * 8, b"", ("report", 0, 0, 0, (
                        ((1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0), ("c32", 1)),)))),
         ref.enc_v3(ref.enc_header(2, 1472, 1), ref.enc_usm(b"\x80" * 8, 1, 1, b"alice", b"\0" * 12,
                                                            b""), b"\x30\x00"),
         ref.enc_seq(ref.enc_int(3)), ref.enc_seq(ref.enc_int(2), ref.enc_oct(b""))]


class World:
    @property
    def now(self):
        return time.time()


def marker(pdu):
    """-> (serial, behaviour)"""
    if pdu[4] and pdu[4][0][0][:len(ARC)] == ARC and len(pdu[4][0][0]) == len(ARC) + 2:
        return pdu[4][0][0][len(ARC):]
    return None


def content(agent, serial, principal, version):
    return b"%s/%d/%s/%d" % (agent, serial, principal, version)


class Agents:
    """Real agents in one thread.  Agent i uses the credentials of namespace i % 2."""

    def __init__(self):
        self.selector = selectors.DefaultSelector()
        self.agents, self.queue, self.n = [], [], 0
        self.copies = {}
        self.served = 0
        self.error = None
        for i in range(8):
            family = socket.AF_INET if i < 6 else socket.AF_INET6
            sock = socket.socket(family, socket.SOCK_DGRAM)
            sock.setblocking(False)
            sock.bind(("127.0.0.1" if i < 6 else "::1", 0))
            agent = Agent(World(), b"\x80\x00\x1f\x88\x04agent%d" % i,
                          [ur.User(*s) for s in SPECS[i % 2]], 3 + i, 1000 * i)
            agent.answer = lambda o, pdu, user, i=i: self.decide(i, 3, user.name, pdu)
            self.agents.append((sock, agent, sock.getsockname()[:2]))
            self.selector.register(sock, selectors.EVENT_READ, i)
        threading.Thread(target=self.loop, daemon=True).start()

    def address(self, i):
        return self.agents[i][2]

    def decide(self, i, version, principal, pdu):
        """-> response PDU; sets self.fate"""
        m = marker(pdu)
        if m is None:
            return None
        serial, fate = m
        key = (i, serial)
        self.copies[key] = self.copies.get(key, 0) + 1
        if fate == NEVER or fate == DROP and self.copies[key] == 1:
            return None
        self.fate = fate
        if fate == ERROR:
            return ("resp", pdu[1], 5, 1, pdu[4])
        name = pdu[4][0][0]
        return ("resp", pdu[1], 0, 0, ((name, ("oct", content(
            b"agent%d" % i, serial, principal, version))),))

    def handle(self, i, data, source):
        sock, agent, _ = self.agents[i]
        self.fate = NOW
        out = []
        try:
            version, community, pdu = ref.Reader().community(data, ("get", "next", "set", "bulk"))
        except ref.Reject:
            reply = agent.process(data)
        else:
            reply = self.decide(i, version, community, pdu)
            if reply is not None:
                if self.fate == WRONG:
                    wrong = ("resp", pdu[1] ^ 1, 0, 0, ((ARC, ("int", 666)),))
                    out.append((0, ref.enc_community(version, community, wrong)))
                reply = ref.enc_community(version, community, reply)
        if reply is None:
            return
        if self.fate == GARBAGE:
            self.n += 1
            out += [(0, NOISE[(self.n + k) % len(NOISE)]) for k in range(5)]
            out.append((0, reply[:-1]))
        out.append((0.03 if self.fate == LATE else 0, reply))
        if self.fate == TWICE:
            out += [(0, reply), (0.01, reply)]
        for delay, data in out:
            if delay:
                self.n += 1
                heapq.heappush(self.queue, (time.monotonic() + delay, self.n, i, source, data))
            else:
                self.transmit(i, source, data)

    def transmit(self, i, source, data):
        try:
            self.agents[i][0].sendto(data, source)
        except OSError:
            pass

    def loop(self):
        try:
            while True:
                wait = None
                if self.queue:
                    wait = max(0, self.queue[0][0] - time.monotonic())
                for key, _ in self.selector.select(wait):
                    try:
                        data, source = self.agents[key.data][0].recvfrom(70000)
                    except (BlockingIOError, ConnectionError):
                        continue
                    self.served += 1
                    self.handle(key.data, data, source)
                while self.queue and self.queue[0][0] <= time.monotonic():
                    _, _, i, source, data = heapq.heappop(self.queue)
                    self.transmit(i, source, data)
                if len(self.copies) > 50000:
                    self.copies.clear()
        except BaseException as err:
            self.error = err
            raise


AGENTS = None
SERIAL = 0


def worker_init():
    global AGENTS
    AGENTS = Agents()


def next_serial():
    global SERIAL
    SERIAL += 1
    return SERIAL


def guarded(fn, what):
    """Call in a thread of its own, so that a hang is a verdict."""
    result = []

    def target():
        try:
            result.append(("ok", fn()))
        except BaseException as err:
            result.append(("raised", err))
    t = threading.Thread(target=target, daemon=True)
    t.start()
    t.join(PATIENCE)
    require(not t.is_alive(), "{} did not return", what)
    if result[0][0] == "raised":
        err = result[0][1]
        raise Violation(f"{what} raised {type(err).__name__}: {err}") from err
    return result[0][1]


class Member:
    """A manager together with who it speaks for."""

    def __init__(self, m, agent, version, principal):
        self.m, self.agent, self.version, self.principal = m, agent, version, principal

    def send(self, kind, fate, **kw):
        serial = next_serial()
        name = ARC + (serial, fate)
        args = (OID(*name),)
        if kind == "set":
            fn, args = self.m.set, ((OID(*name), conv.to_value(("int", serial))),)
        elif kind == "bulk" and self.version:
            fn, kw = self.m.getBulk, dict(kw, maxRepetitions=3)
        else:
            fn = self.m.getNext if kind == "next" else self.m.get
        kw.update(timeout=UNANSWERED if fate == NEVER else ANSWERED, refreshPeriod=0.2)
        return name, fn, args, kw

    def judge(self, name, fate, began, fn):
        serial = name[-2]
        what = (f"request {serial} (v{self.version}, agent {self.agent}, as {self.principal!r}, "
                f"behaviour {fate})")
        try:
            got = ("ok", conv.from_vbl(fn()))
        except ErrorResponse as err:
            got = ("error", int(err.status))
        except Timeout:
            got = ("timeout",)
        except Violation:
            raise
        except Exception as err:
            raise Violation(f"{what} raised {type(err).__name__}: {err}") from err
        took = time.time() - began
        if fate == NEVER:
            same(got, ("timeout",), what)
            require(took >= UNANSWERED * 0.99, "{} timed out after {} s", what, took)
            require(took < UNANSWERED + PATIENCE / 2, "{} timed out only after {} s", what, took)
        elif fate == ERROR:
            same(got, ("error", 5), what)
        else:
            want = ((name, ("oct", content(b"agent%d" % self.agent, serial, self.principal,
                                           self.version))),)
            same(got, ("ok", want), what)


def program(member, steps, order, failures):
    """What one thread does with its manager."""
    try:
        deferred = []
        for kind, fate, wait in steps:
            name, fn, args, kw = member.send(kind, fate)
            began = time.time()
            if wait:
                member.judge(name, fate, began, lambda: fn(*args, wait=True, **kw))
            else:
                try:
                    handle = fn(*args, wait=False, **kw)
                except Exception as err:
                    raise Violation(f"sending {name} raised {type(err).__name__}: {err}") from err
                deferred.append((name, fate, began, handle))
        if order:
            deferred.reverse()
        for name, fate, began, handle in deferred:
            member.judge(name, fate, began, handle.wait)
    except BaseException as err:
        failures.append(err)


class Peer:
    """An engine with its managers."""

    def __init__(self, spec):
        (default, self.specs, autowait) = spec
        self.engine = Engine(VERSIONS[default], autowait=autowait, defaultCommunity=b"public")
        self.default = default
        self.members = []
        self.taken = set()
        self.pending = []
        self.users = False
        self.domains = set()            # in use
        self.tried = set()              # by managers that could not be created
        self.connected = []             # sockets that the caller still refers to

    def populate(self):
        for spec in self.specs:
            self.add(spec)

    def add(self, spec):
        (agent, version, principal, local) = spec
        if agent in self.taken:             # one manager per remote engine
            return None
        self.taken.add(agent)
        kw = {"version": VERSIONS[version]}
        if version == self.default:
            kw = {}
        if agent >= 6:
            kw["domain"] = TransportDomain.UDP_IPv6
        if local and agent < 6:
            kw["localAddress"] = ("127.0.0.1", 0)
        space = agent % 2
        if version == 3:
            if not self.users:
                self.users = True
                for s, specs in enumerate(SPECS):
                    for u in specs:
                        uc.add_user(self.engine.usm, uc.make(u), namespace=SPACES[s])
            who = SPECS[space][principal][0]
            kw.update(namespace=SPACES[space], defaultUserName=who.decode())
        else:
            who = COMMUNITIES[principal]
            kw["community"] = who
        self.domains.add(4 if agent < 6 else 6)
        m = self.engine.Manager(AGENTS.address(agent), **kw)
        member = Member(m, agent, version, who)
        self.members.append(member)
        return member


    def connect(self, family):
        """A transport that the caller made."""
        sock = UdpIPv4Socket("127.0.0.1", 0) if family == 4 else UdpIPv6Socket("::1", 0)
        try:
            self.engine.connectTransport(sock)
        except ValueError:
            require(family in self.domains or family in self.tried, "a transport was refused")
            sock.close()
            return "refused"
        require(family not in self.domains, "a second transport of one domain was accepted")
        self.domains.add(family)
        self.connected.append(sock)
        with socket.socket(socket.AF_INET if family == 4 else socket.AF_INET6,
                           socket.SOCK_DGRAM) as s:
            for data in NOISE[::3]:
                s.sendto(data, ("127.0.0.1" if family == 4 else "::1", sock.port))
        return "connected"

    def fail(self, how, version):
        """A manager that cannot be created."""
        kw = {"version": VERSIONS[version]}
        address = AGENTS.address(0)
        self.tried.add(4)
        if how == "occupied":
            kw["localAddress"] = AGENTS.address(1)
        elif how == "not local":
            kw["localAddress"] = ("192.0.2.1", 0)
        elif how == "domain":
            kw["domain"] = 4711
        elif how == "user":
            kw = {"version": VERSIONS[3], "defaultUserName": "nobody"}
        else:
            address = ("127.0.0.1", 65536)
        try:
            self.engine.Manager(address, **kw)
        except Exception:
            return
        raise Violation(f"an impossible manager was created ({how})")


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.live = []
        self.closed = []                # still referred to
        self.foreign = set(threading.enumerate())
        self.crashes = []
        self.concurrent = self.busy = False

    def engine(self, spec):
        if len(self.live) >= 3:
            return
        peer = Peer(spec)
        self.live.append(peer)
        guarded(peer.populate, "creating managers")

    def pick(self, which):
        return self.live[which % len(self.live)] if self.live else None

    def simple(self, op):
        if op[0] == "engine":
            self.engine(op[1])
        elif op[0] == "shutdown":
            self.shutdown(op[1], op[2])
        elif op[0] == "add":
            peer = self.pick(op[1])
            if peer is not None:
                guarded(lambda: peer.add(op[2]), "adding a manager")
        elif op[0] == "connect":
            peer = self.pick(op[1])
            if peer is not None:
                self.ctx.label(guarded(lambda: peer.connect(op[2]), "connecting a transport"))
        elif op[0] == "fail":
            peer = self.pick(op[1])
            if peer is not None:
                guarded(lambda: peer.fail(*op[2:]), "creating an impossible manager")
                self.ctx.label("failed manager: " + op[2])
        elif op[0] == "pending":
            self.pending(*op[1:])
        elif op[0] == "pause":
            time.sleep(op[1] / 1000)

    def pending(self, which, member, fates):
        peer = self.pick(which)
        if peer is None or not peer.members:
            return
        m = peer.members[member % len(peer.members)]
        for fate in fates:
            name, fn, args, kw = m.send("get", fate)
            peer.pending.append(guarded(lambda: fn(*args, wait=False, **kw), "sending"))
        self.ctx.label("left pending")
        self.busy = True

    def shutdown(self, which, mode):
        peer = self.pick(which)
        if peer is None or peer is self.occupied:
            return
        self.live.remove(peer)
        self.close(peer, mode)

    def close(self, peer, mode):
        self.ctx.label("shutdown: " + mode)
        if mode == "forget":
            peer.pending.clear()
        if mode in ("exit", "forget"):
            guarded(lambda: peer.engine.__exit__(None, None, None), "leaving the context")
        elif mode == "raise":
            def leave():
                try:
                    with peer.engine:
                        raise KeyError("x")
                except KeyError:
                    return
                raise Violation("the exception was swallowed")
            guarded(leave, "leaving the context with an exception")
        elif mode == "explicit":
            guarded(peer.engine.shutdown, "shutdown()")
        else:
            # the documentation offers both ways; a caller may well combine them, with another
            # engine in between
            guarded(peer.engine.shutdown, "shutdown()")
            if mode == "between":
                self.engine((1, ((0, 1, 0, False),), True))
            guarded(lambda: peer.engine.__exit__(None, None, None),
                    "leaving the context after shutdown()")
        # the engine's thread has ended, now
        left = [t for t in threading.enumerate() if t not in self.foreign]
        require(len(left) <= len(self.live), "{} threads are running after shutdown, for {} other "
                "engines", len(left), len(self.live))
        peer.pending.clear()
        if mode == "forget":
            peer.members.clear()
        self.closed.append(peer)

    occupied = None

    def batch(self, which, programs, meanwhile):
        peer = self.pick(which)
        if peer is None or not peer.members:
            return
        failures, threads = [], []
        for member, (steps, order) in zip(list(peer.members), programs):
            threads.append(threading.Thread(target=program, daemon=True, args=(
                member, steps, order, failures)))
            self.ctx.label(f"v{member.version}", *(f"behaviour {s[1]}" for s in steps))
        self.foreign.update(threads)
        for t in threads:
            t.start()
        self.occupied = peer
        if len(threads) > 1:
            self.concurrent = True
        for op in meanwhile:
            self.ctx.label("meanwhile " + op[0])
            self.simple(op)
            self.busy = True
        deadline = time.monotonic() + PATIENCE + len(programs) * 5
        for t in threads:
            t.join(max(0, deadline - time.monotonic()))
            if t.is_alive() and AGENTS.error is not None:
                raise AGENTS.error
            require(not t.is_alive(), "a request neither returned nor timed out")
        self.occupied = None
        if failures:
            raise failures[0]


def fds():
    return {fd: os.readlink(f"/proc/self/fd/{fd}") for fd in os.listdir("/proc/self/fd")
            if os.path.lexists(f"/proc/self/fd/{fd}")}


def run(case, ctx):
    (switch, first, ops) = case
    if AGENTS is None:
        worker_init()
    threads = set(threading.enumerate())
    gc.collect()
    before = fds()
    interval = sys.getswitchinterval()
    sys.setswitchinterval(switch / 1e6)
    r = Run(ctx)
    excepthook = threading.excepthook
    threading.excepthook = lambda args: r.crashes.append(repr(args.exc_value))
    try:
        r.engine(first)
        for op in ops:
            if op[0] == "batch":
                r.batch(*op[1:])
            else:
                r.simple(op)
        for peer in list(r.live):
            r.live.remove(peer)
            r.close(peer, "exit")
    finally:
        sys.setswitchinterval(interval)
        threading.excepthook = excepthook
        for peer in r.live:
            try:
                peer.engine.shutdown()
            except BaseException:
                pass
    deadline = time.monotonic() + PATIENCE / 2
    while True:
        left = [t for t in threading.enumerate() if t not in threads]
        if not left or time.monotonic() > deadline:
            break
        time.sleep(0.001)
    require(not left, "threads still running after shutdown: {}", [t.name for t in left])
    require(not r.crashes, "an engine's thread ended with {}", r.crashes)
    for _ in range(2):
        # the sockets are closed although the caller still refers to engines and managers ...
        gc.collect()
        after = fds()
        if len(after) > len(before):
            break
        # ... and stay so when these are gone
        r = None
    if len(after) != len(before):
        raise Violation(f"{len(before)} descriptors were open before and {len(after)} after: "
                        f"{sorted(after.values())}")


def members():
    return st.tuples(st.integers(0, 7), st.sampled_from([0, 1, 1, 3, 3, 3]), st.integers(0, 2),
                     st.sampled_from([False, False, False, True]))


def engines():
    return st.tuples(st.sampled_from([0, 1, 3]), gen.pick(*[gen.sized(members(), 1, 5)] * 9,
                                                          st.just(())), st.booleans())


def programs():
    fate = st.sampled_from([NOW] * 5 + [DROP, TWICE, TWICE, LATE, LATE, GARBAGE, GARBAGE, NEVER,
                                        ERROR, ERROR, WRONG, WRONG])
    step = st.tuples(st.sampled_from(["get", "get", "next", "set", "bulk"]), fate, st.booleans())
    return gen.sized(st.tuples(gen.sized(step, 1, 6), st.booleans()), 1, 6)


def simple():
    mode = st.sampled_from(["exit", "exit", "raise", "explicit", "forget", "both", "between"])
    fates = st.lists(st.sampled_from([NEVER, LATE, NOW, GARBAGE, DROP]), min_size=1, max_size=4)
    return gen.pick(st.tuples(st.just("engine"), engines()),
                    st.tuples(st.just("shutdown"), st.integers(0, 2), mode),
                    st.tuples(st.just("add"), st.integers(0, 2), members()),
                    st.tuples(st.just("pending"), st.integers(0, 2), st.integers(0, 4),
                              fates.map(tuple)),
                    st.tuples(st.just("pause"), st.integers(0, 12)),
                    st.tuples(st.just("connect"), st.integers(0, 2), st.sampled_from([4, 6])),
                    st.tuples(st.just("fail"), st.integers(0, 2), st.sampled_from(
                        ["occupied", "not local", "domain", "user", "port"]),
                        st.sampled_from([0, 1, 3])))


def cases():
    meanwhile = gen.sized(simple().filter(lambda op: op[0] != "pending"), 0, 4)
    batch = st.tuples(st.just("batch"), st.integers(0, 2), programs(), meanwhile)
    return st.tuples(st.sampled_from([1, 20, 500, 5000]), engines(),
                     gen.sized(gen.pick(batch, batch, simple()), 1, 6))




def check(case, ctx):
    run(case, ctx)
    ctx.nontrivial(any(l.startswith("meanwhile") or l == "left pending" for l in ctx.labels)
                   and any(l[0] == "v" for l in ctx.labels))


SUBS = [Sub("lifetimes", cases, check, 700)]
