"""A simulated world for the managers: virtual clock, scripted network, single-threaded schedule.

The modules under test are real; what they get from the outside is replaced: time, threading
primitives, the UDP sockets and the multiplexor.  The listening thread is simulated by delivering
datagrams (a) while the caller waits on an event, (b) while it sleeps, and (c) between any two
instructions that read the clock or release a lock, provided that no lock is held; so schedules
where a delivery falls into the middle of a call are reached as well.  threads.py has a variant
with real threads that are interleaved line by line under a generated schedule.

Times are multiples of 1/64 s starting at 2**20, hence exact in floating point.
"""
import heapq
import importlib
import pkgutil
import sys
import threading as real_threading
import time as real_time
import types

from harness import bootstrap
from harness.api import Violation
from harness.bootstrap import HarnessError

EPOCH = float(2**20)
UNIT = 1 / 64


class Stuck(BaseException):
    """The schedule cannot go on (deadlock, hang, or an escaping exception).  BaseException: no
    handler in the code under test may swallow it."""


current = None


def world():
    if current is None:
        raise HarnessError("no simulated world is active")
    return current


class World:
    def __init__(self, ticks=(), oversleeps=()):
        self.now = EPOCH
        self.ticks = list(ticks)            # consumed by clock reads, cyclically
        self.oversleeps = list(oversleeps)  # consumed by timed waits that time out
        self.reads = 0
        self.naps = 0
        self.zero_waits = 0
        self.drift = 0.0                    # total time added by ticks and oversleeps
        self.queue = []
        self.seq = 0
        self.locks = 0
        self.delivering = False
        self.listener = None
        self.transports = []
        self.sent = []                      # (time, transport, address, data, inside a delivery)
        self.on_send = None
        self.problem = self.error = None
        self.blocked_forever = False
        self.waiting = self.interrupted = False

    # clock
    def tick(self):
        if self.ticks:
            step = self.ticks[self.reads % len(self.ticks)]
            self.reads += 1
            self.now += step
            self.drift += step

    def time(self):
        self.tick()
        now = self.now
        self.interleave()
        return now

    @property
    def max_tick(self):
        return max(self.ticks, default=0)

    @property
    def max_sleep(self):
        return max(self.oversleeps, default=0)

    # network
    def at(self, when, action):
        self.seq += 1
        heapq.heappush(self.queue, (when, self.seq, action))

    def after(self, delay, action):
        self.at(self.now + delay, action)

    def interleave(self):
        if not self.locks and not self.delivering:
            self.run_due()

    def run_due(self):
        while self.queue and self.queue[0][0] <= self.now:
            self.step()

    def step(self):
        when, _, action = heapq.heappop(self.queue)
        self.now = max(self.now, when)
        was, self.delivering = self.delivering, True
        try:
            self.guarded(action)
        finally:
            self.delivering = was

    def guarded(self, action, *args):
        """Run harness code; what it has to say must pass the handlers of the code under test."""
        try:
            action(*args)
        except Violation as err:
            self.stuck(str(err))
        except OSError:
            raise                       # an injected fault
        except Exception as err:
            self.error = err
            raise Stuck("harness error") from err

    def hear(self, transport, source, data):
        """What the listening thread does with one datagram."""
        if self.listener is None:
            raise HarnessError("nothing listens")
        was, self.delivering = self.delivering, True
        try:
            self.listener.hear(transport, source, data)
        except Exception as err:
            self.stuck(f"hear() raised {type(err).__name__}: {err}, which ends the listening "
                       "thread")
        finally:
            self.delivering = was

    def send(self, transport, address, data):
        self.sent.append((self.now, transport, address, data, self.delivering))
        if len(self.sent) > 300 and self.sent[-300][0] == self.now:
            self.stuck("sends one datagram after the other without end")
        if self.on_send is not None:
            self.guarded(self.on_send, transport, address, data)

    def stuck(self, problem):
        self.problem = problem
        raise Stuck(problem)

    # synchronization
    def acquire(self, lock, blocking):
        self.interleave()
        if lock.count and not lock.reentrant:
            if not blocking:
                return False
            self.stuck("acquires a lock it already holds: deadlock")
        lock.count += 1
        self.locks += 1
        return True

    def release(self, lock):
        if not lock.count:
            raise RuntimeError("release unlocked lock")
        lock.count -= 1
        self.locks -= 1
        self.interleave()

    def set_event(self, event):
        event.flag = True
        self.interleave()

    def begin(self):
        pass

    def settle(self):
        """Let the listener finish the datagram it is working on."""

    def finish(self):
        self.queue.clear()
        self.ticks = []

    # waiting
    def sleep(self, seconds):
        deadline = self.now + seconds
        while self.queue and self.queue[0][0] <= deadline:
            self.step()
        self.now = max(self.now, deadline)

    def interrupt(self):
        """An action: the user presses Ctrl-C, which matters if the caller is waiting."""
        self.interrupted = self.waiting

    def wait_step(self):
        self.waiting = True
        try:
            self.step()
        finally:
            self.waiting = False
        if self.interrupted:
            self.interrupted = False
            raise KeyboardInterrupt

    def wait(self, event, timeout):
        if self.locks:
            self.stuck("waits on an event while holding a lock")
        if event.flag:
            return True
        if timeout is None:
            while not event.flag:
                if not self.queue:
                    self.stuck("waits without a timeout, and no datagram is under way: blocks "
                               "forever")
                self.wait_step()
                if event.flag:
                    return True
            return True
        if timeout <= 0:
            # a poll: takes a little time, so that polling loops end
            self.zero_waits += 1
            step = UNIT * (1 if self.zero_waits < 2000 else 64)
            if self.zero_waits % 16 == 0:
                self.now += step
                self.drift += step
            self.run_due()
            return event.flag
        deadline = self.now + timeout
        if self.oversleeps:
            extra = self.oversleeps[self.naps % len(self.oversleeps)]
            self.naps += 1
        else:
            extra = 0
        while self.queue and self.queue[0][0] <= deadline:
            self.wait_step()
            if event.flag:
                return True
        self.now = max(self.now, deadline)
        if extra:
            self.now += extra
            self.drift += extra
            self.run_due()
        return event.flag


# ------------------------------------------------------------------ replaced primitives
class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        world().set_event(self)

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        return world().wait(self, timeout)


class Lock:
    reentrant = False

    def __init__(self):
        self.count = 0
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        return world().acquire(self, blocking)

    def release(self):
        world().release(self)

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class RLock(Lock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *args):
        self.lock.__exit__(*args)

    def wait(self, timeout=None):
        event = Event()
        self.waiters.append(event)
        self.lock.release()
        try:
            return event.wait(timeout)
        finally:
            self.lock.acquire()
            if event in self.waiters:
                self.waiters.remove(event)

    def wait_for(self, predicate, timeout=None):
        deadline = None if timeout is None else world().now + timeout
        while not predicate():
            left = None if deadline is None else deadline - world().now
            if left is not None and left <= 0:
                break
            self.wait(left)
        return predicate()

    def notify(self, n=1):
        for event in self.waiters[:n]:
            self.waiters.remove(event)
            event.set()

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class Thread:
    """start() runs the target at once: the only thread is the listener, which returns at once."""
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.name, self.daemon = name, daemon

    def start(self):
        self.target(*self.args, **self.kwargs)

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return False


def _time():
    return world().time()


def _sleep(seconds):
    world().sleep(seconds)


def _entropy(n):
    w = world()
    w.entropy = getattr(w, "entropy", 0) + 1
    return (w.entropy * 0x9e3779b97f4a7c15 % 2**64).to_bytes(8, "big")[:n].ljust(n, b"\x5a")


class FakeMultiplexor:
    def __init__(self, recvSize=1472):
        self.recvSize = recvSize

    def register(self, sock):
        pass

    def listen(self, listener):
        world().listener = listener

    def stop(self):
        pass

    def close(self):
        pass


def shim(module, **replaced):
    new = types.ModuleType(module.__name__)
    new.__dict__.update(module.__dict__)
    new.__dict__.update(replaced)
    return new


_installed = False


def install():
    """Import the code under test and replace what it uses of the outside world."""
    global _installed
    if _installed:
        return
    _installed = True
    import os
    import snmp.transport.udp as udp

    def fake(base):
        class Fake(base):
            def __init__(self, host="", port=0):
                self.local = (host, port)
                self.closed = False
                world().transports.append(self)

            @property
            def fileno(self):
                return 1000 + id(self) % 1000000

            @property
            def port(self):
                return self.local[1]

            def send(self, address, data):
                world().send(self, address, bytes(data))

            def receive(self, size):
                raise HarnessError("receive() on a simulated socket")

            def close(self):
                self.closed = True
        Fake.__name__ = base.__name__
        return Fake

    originals = {udp.UdpIPv4Socket: fake(udp.UdpIPv4Socket),
                 udp.UdpIPv6Socket: fake(udp.UdpIPv6Socket),
                 udp.UdpMultiplexor: FakeMultiplexor}

    import snmp
    for info in pkgutil.walk_packages(snmp.__path__, "snmp."):
        if any(part in info.name for part in ("cffi", "openssl", "generic", "typing")):
            continue
        try:
            importlib.import_module(info.name)
        except ImportError:
            pass
    import snmp.engine

    threading_shim = shim(real_threading, Event=Event, Lock=Lock, RLock=RLock, Thread=Thread,
                          Condition=Condition)
    time_shim = shim(real_time, time=_time, monotonic=_time, perf_counter=_time, sleep=_sleep)
    originals.update({
        real_threading: threading_shim, real_time: time_shim,
        real_threading.Event: Event, real_threading.Lock: Lock, real_threading.RLock: RLock,
        real_threading.Thread: Thread, real_threading.Condition: Condition,
        real_time.time: _time, real_time.monotonic: _time,
        real_time.sleep: _sleep, os.urandom: _entropy, os: shim(os, urandom=_entropy),
    })
    table = {id(k): v for k, v in originals.items()}

    def patch(holder, attr, value):
        if id(value) in table:
            setattr(holder, attr, table[id(value)])
        elif type(value) is dict:
            for key, item in list(value.items()):
                if id(item) in table:
                    value[key] = table[id(item)]

    for name, module in list(sys.modules.items()):
        if name == "snmp" or name.startswith("snmp."):
            for attr, value in list(vars(module).items()):
                if attr.startswith("__"):
                    continue
                patch(module, attr, value)
                if isinstance(value, type) and value.__module__ == name:
                    for key, item in list(vars(value).items()):
                        if not key.startswith("__"):
                            patch(value, key, item)


class Simulation:
    """with Simulation(...) as w: ...   Turns a stuck schedule into a violation."""

    def __init__(self, ticks=(), oversleeps=(), schedule=None):
        """schedule: None, or the preemptions of threads.ThreadedWorld."""
        self.args = (ticks, oversleeps)
        self.schedule = schedule

    def __enter__(self):
        global current
        install()
        if self.schedule is None:
            self.world = current = World(*self.args)
        else:
            from harness.threads import ThreadedWorld
            self.world = current = ThreadedWorld(self.schedule)
        self.world.begin()
        return current

    def __exit__(self, kind, err, tb):
        # `current` stays: late destructors still need locks and the clock
        w = self.world
        w.finish()
        if w.error is not None:
            raise w.error
        if kind is Stuck or (kind is None and w.problem):
            raise Violation(w.problem) from None
        return False
