"""T02: every received datagram is delivered once, intact, to its listener."""
import os
import socket
import threading
import time

from hypothesis import strategies as st

from harness import bootstrap, gen
from harness.api import Sub, Violation, require, same, short

from snmp.transport.generic.udp import GenericUdpMultiplexor
from snmp.transport.posix.udp import PosixUdpMultiplexor
from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket

RULE = ("generated traffic (empty to maximum-size datagrams) from several clients to up to 40 IPv4 "
        "and IPv6 loopback sockets on both multiplexers, with listening stopped before, during and "
        "after the traffic or from inside the listener, restarted, sockets added in between, "
        "replies, receive calls that fail spuriously, and stray datagrams to every other UDP socket "
        "of the process; non-trivial = at least two sockets "
        "received something and listening was restarted")
TIME_LIMIT = 150.0                  # a backstop; the check itself notices a hang earlier
ASSUMPTIONS = ["datagrams are at most recvSize long and fit into the socket's buffer",
               "loopback delivery is synchronous, so the order of sending is the order of arrival",
               "a hang is 20 s without progress"]

MUX = {"posix": PosixUdpMultiplexor, "generic": GenericUdpMultiplexor}
HOST = {4: "127.0.0.1", 6: "::1"}
FAMILY = {4: socket.AF_INET, 6: socket.AF_INET6}
PATIENCE = 20.0


def flaky(base):
    class Flaky(base):
        """A socket whose readiness is spurious now and then (see BUGS in select(2))."""
        faults = ()

        def receive(self, size):
            if self.faults:
                raise self.faults.pop(0)
            return super().receive(size)
    return Flaky


SOCKET = {4: flaky(UdpIPv4Socket), 6: flaky(UdpIPv6Socket)}
FAULTS = [BlockingIOError, BlockingIOError, ConnectionResetError, ConnectionRefusedError]


class Run:
    def __init__(self, case, ctx):
        (impl, self.size, families, clients, self.reply, ops) = case
        self.ctx = ctx
        self.mux = MUX[impl](self.size)
        self.socks, self.clients, self.got, self.sent = [], [], [], []
        self.surplus = self.listens = self.serial = 0
        self.stop_after = None
        self.problem = None

    def setup(self, families, clients):
        for f in families:
            self.register(f)
        for f in clients:
            c = socket.socket(FAMILY[f], socket.SOCK_DGRAM)
            self.clients.append((f, c))
            c.setblocking(False)
            c.bind((HOST[f], 0))

    def register(self, family):
        sock = SOCKET[family](HOST[family], 0)
        sock.faults = []
        self.socks.append((family, sock))
        self.sent.append([])
        self.mux.register(sock)

    # listener interface
    def hear(self, transport, source, data):
        self.got.append((transport, tuple(source)[:2], data))
        if self.reply:
            transport.send(source, b"re:" + bytes(data[:16]))
        if self.stop_after is not None:
            self.stop_after -= 1
            if self.stop_after <= 0:
                self.stop_after = None
                self.mux.stop()

    def send(self, which, client, size, filler):
        if not self.socks:
            return
        i = which % len(self.socks)
        family, sock = self.socks[i]
        mine = [c for f, c in self.clients if f == family]
        if not mine:
            return
        c = mine[client % len(mine)]
        size = min(size, self.size)
        mark = b"%d." % self.serial
        self.serial += 1
        data = (mark + bytes([filler]) * size)[:size]
        waiting = [d for _, d in self.sent[i][self.delivered(i):]]
        if sum(map(len, waiting)) + size > 66000 or len(waiting) > 40:
            return
        c.sendto(data, (HOST[family], sock.port))
        self.sent[i].append((c.getsockname()[:2], data))

    def strays(self, client, data):
        """To every other UDP socket of this process, as any local user could send it."""
        known = {s.fileno for _, s in self.socks} | {c.fileno() for _, c in self.clients}
        for name in os.listdir("/proc/self/fd"):
            if int(name) in known:
                continue
            try:
                if not os.readlink("/proc/self/fd/" + name).startswith("socket:"):
                    continue
                with socket.socket(fileno=os.dup(int(name))) as s:
                    if s.type != socket.SOCK_DGRAM or s.family not in FAMILY.values():
                        continue
                    address = s.getsockname()[:2]
                mine = [c for f, c in self.clients if FAMILY[f] == s.family]
                mine[client % len(mine)].sendto(data, address)
                self.ctx.label("stray")
            except OSError:
                continue

    def delivered(self, i):
        return sum(1 for t, _, _ in self.got if t is self.socks[i][1])

    def pending(self):
        return len(self.got) < sum(map(len, self.sent))

    def check(self):
        for i, (_, sock) in enumerate(self.socks):
            mine = [(s, d) for t, s, d in self.got if t is sock]
            for n, x in enumerate(mine):
                require(n < len(self.sent[i]), "socket {} delivered {} datagrams, but only {} were "
                        "sent to it", i, len(mine), len(self.sent[i]))
                require(x == self.sent[i][n], "datagram {} on socket {} was delivered as {}, it "
                        "was {}", n, i, short(x), short(self.sent[i][n]))
                require(isinstance(x[1], bytes), "delivered a {}", type(x[1]).__name__)
        require(len(self.got) == sum(self.delivered(i) for i in range(len(self.socks))),
                "a datagram was delivered with an unknown transport")

    # listening
    def start(self):
        def target():
            try:
                self.mux.listen(self)
            except BaseException as err:
                self.problem = err
        self.listens += 1
        thread = threading.Thread(target=target, daemon=True)
        thread.start()
        return thread

    def finish(self, thread):
        thread.join(PATIENCE)
        require(not thread.is_alive(), "listen() did not return after stop()")
        if self.problem is not None:
            raise Violation(f"listen() raised {type(self.problem).__name__}: {self.problem}")
        self.check()

    def round(self, stops):
        """Stop first, then listen: whatever happens to be handled is handled correctly."""
        for _ in range(stops):
            self.mux.stop()
        self.surplus += stops - 1
        self.finish(self.start())

    def live(self, sends, stop_after):
        """Listen while things arrive, until all has been delivered or the listener stops it."""
        thread = self.start()
        if stop_after:
            self.stop_after = stop_after
        for s in sends:
            if s[0] == "stray":
                self.strays(*s[1:])
            else:
                self.send(*s)
        deadline = time.monotonic() + PATIENCE
        while self.pending() and thread.is_alive():
            require(time.monotonic() < deadline, "{} of {} datagrams were delivered within {} s",
                    len(self.got), sum(map(len, self.sent)), PATIENCE)
            time.sleep(0.0005)
        if stop_after and self.stop_after is None:
            self.finish(thread)
            self.ctx.label("stopped by the listener")
            return
        self.stop_after = None
        if not thread.is_alive() and self.problem is None and self.socks:
            require(self.surplus > 0, "listen() returned although nobody stopped it")
            self.surplus -= 1
            self.finish(thread)
            return
        self.mux.stop()
        self.finish(thread)

    def replies(self):
        for f, c in self.clients:
            name = c.getsockname()[:2]
            want = sorted((HOST[f], sock.port, b"re:" + d[:16])
                          for i, (_, sock) in enumerate(self.socks) for s, d in self.sent[i]
                          if s == name)
            have = []
            deadline = time.monotonic() + 2
            while len(have) < len(want):
                try:
                    data, source = c.recvfrom(100)
                except BlockingIOError:
                    if time.monotonic() > deadline:
                        break
                    time.sleep(0.001)
                    continue
                have.append((source[0], source[1], data))
            same(sorted(have), want, "replies received by a client")

    def close(self):
        for _, c in self.clients:
            c.close()


def fds():
    return len(os.listdir("/proc/self/fd"))


def run(case, ctx):
    before = fds()
    s = Run(case, ctx)
    closed = False
    try:
        s.setup(case[2], case[3])
        for op in case[5]:
            if op[0] == "send":
                s.send(*op[1:])
            elif op[0] == "stray":
                s.strays(*op[1:])
            elif op[0] == "round":
                s.round(op[1])
            elif op[0] == "live":
                s.live(op[1], op[2])
                ctx.label("live")
            elif op[0] == "register":
                if len(s.socks) < 4:
                    s.register(op[1])
                    ctx.label("socket added")
            elif s.socks:
                s.socks[op[1] % len(s.socks)][1].faults.append(FAULTS[op[2]]())
                ctx.label("spurious")
        for _ in range(s.surplus + 1):
            if s.pending():
                s.live((), 0)
        while s.surplus > 0 and s.pending():
            s.live((), 0)
        require(not s.pending(), "{} of {} datagrams were never delivered",
                sum(map(len, s.sent)) - len(s.got), sum(map(len, s.sent)))
        if s.reply:
            s.replies()
        s.mux.close()
        closed = True
        for _, sock in s.socks:
            require(sock.fileno == -1, "close() left a socket open")
    finally:
        if not closed and s.problem is None:
            try:
                s.mux.stop()
            except Exception:
                pass
        s.close()
    same(fds(), before, "open file descriptors after close()")
    busy = sum(1 for x in s.sent if x)
    ctx.label(case[0], f"{len(s.socks)} sockets")
    ctx.nontrivial(busy > 1 and s.listens > 1)


def sends():
    size = gen.pick(st.integers(0, 40), st.just(0), st.integers(0, 1500),
                    st.sampled_from([1471, 1472, 65507, 484]))
    return st.tuples(st.integers(0, 3), st.integers(0, 2), size, st.sampled_from([0, 0xff, 0x41]))


def ops():
    send = sends().map(lambda t: ("send",) + t)
    stray = st.tuples(st.just("stray"), st.integers(0, 2), st.sampled_from(
        [b"\0", b"\0", b"", b"\1", b"stop", b"\0\0"]))
    live = st.tuples(st.just("live"), st.lists(gen.pick(*[sends()] * 5, stray), max_size=6).map(
        tuple),
                     st.sampled_from([0, 0, 1, 3]))
    rnd = st.tuples(st.just("round"), st.sampled_from([1, 1, 1, 2]))
    op = gen.pick(send, send, send, send, send, rnd, live, stray, st.tuples(
        st.just("register"), st.sampled_from([4, 6])),
        st.tuples(st.just("fault"), st.integers(0, 3), st.integers(0, len(FAULTS) - 1)))
    return gen.sized(op, 1, 14)


def cases():
    families = gen.sized(st.sampled_from([4, 4, 6]), 1, 3)
    families = gen.pick(families, families, families, families, st.just(()))
    return st.tuples(st.sampled_from(["posix", "generic"]),
                     st.sampled_from([1472, 1472, 484, 65507, 1]), families,
                     st.sampled_from([(4, 6), (4, 4, 6), (4, 6, 6)]), st.booleans(), ops())


def many():
    """Dozens of sockets on one multiplexer."""
    send = st.tuples(st.integers(0, 39), st.integers(0, 2), st.integers(0, 40), st.just(0x41))
    op = gen.pick(send.map(lambda t: ("send",) + t), send.map(lambda t: ("send",) + t),
                  st.tuples(st.just("round"), st.just(1)),
                  st.tuples(st.just("live"), st.lists(send, max_size=12).map(tuple),
                            st.sampled_from([0, 0, 3])))
    return st.tuples(st.sampled_from(["posix", "generic"]), st.just(1472),
                     gen.sized(st.sampled_from([4, 6]), 5, 40), st.just((4, 6)), st.booleans(),
                     gen.sized(op, 4, 20))


SUBS = [Sub("many", many, run, 400), Sub("traffic", cases, run, 16000)]
