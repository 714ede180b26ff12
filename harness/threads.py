"""Real threads under a generated schedule.

Every task (the callers and the listener) is a real thread, but only one runs at a time.  Control
passes to another one when the running task blocks, and where the schedule says so: at a line of
the code under test, or at a synchronization point.  Virtual time advances when every task is
blocked; or, when a caller is preempted and no other task can run, to the arrival of the next
datagram (`drift` counts how much).  It never advances while the listener is in the middle of a
datagram.

A schedule is a sequence of preemptions (mode, n, choice), used one after the other:
    mode "line": after n lines;  "sync": after n synchronization points;
    mode "spot": at the next line whose position in the code falls into class n (of SPOTS)
    mode "each": from here on, at every n-th line, up to EACH times
    choice:      which of the other runnable tasks goes on
"""
import sys
import threading
import zlib

from harness import sim
from harness.bootstrap import HarnessError, REPO
from harness.sim import Stuck, World

SPOTS = 97
EACH = 150
TOOL = 4
PARTS = ("/snmp/manager/", "/snmp/message/", "/snmp/dispatcher.py", "/snmp/engine.py",
         "/snmp/security/usm/", "/snmp/utils.py")
SKIP = {"encode", "decode", "serialize", "deserialize", "__eq__", "__repr__", "__str__", "<listcomp>",
        "<genexpr>", "findSignature", "findSecurityParameters", "decodeExact", "computeKey"}

_spots = {}         # code -> {line: spot}
_ready = False


def spots_of(code):
    if not code.co_filename.startswith(REPO + "/snmp/"):
        return None
    name = code.co_filename[len(REPO):]
    if not any(name.startswith(p) for p in PARTS) or code.co_name in SKIP:
        return None
    if "subbytes" in code.co_qualname or "Encodable" in code.co_qualname:
        return None
    lines = {line for _, _, line in code.co_lines() if line}
    return {line: zlib.crc32(f"{code.co_qualname} {i}".encode()) % SPOTS
            for i, line in enumerate(sorted(lines))}


def on_line(code, line):
    w = sim.current
    if not isinstance(w, ThreadedWorld):
        return None
    spots = _spots.get(code, 0)
    if spots == 0:
        spots = _spots[code] = spots_of(code)
    if spots is None:
        return sys.monitoring.DISABLE
    if w.active:
        w.point("line", spots.get(line, 0))
    elif threading.current_thread() is not threading.main_thread():
        raise Stuck("over")
    return None


def instrument():
    global _ready
    if not _ready:
        _ready = True
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif")
        m.register_callback(TOOL, m.events.LINE, on_line)
        hook = sys.unraisablehook

        def quiet(unraisable):
            if unraisable.exc_type is not Stuck:
                hook(unraisable)
        sys.unraisablehook = quiet
    sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)


class Task:
    def __init__(self, name):
        self.name = name
        self.go = threading.Semaphore(0)
        self.thread = None
        self.blocked = None         # None or a function: can it go on?
        self.deadline = None
        self.locks = 0
        self.delivering = False
        self.done = False


class ThreadedWorld(World):
    def __init__(self, schedule):
        self.active = False
        self.me = None
        super().__init__()
        self.schedule = list(schedule)
        self.position = 0
        self.count = self.repeats = 0
        self.switches = 0
        self.hurries = 0
        self.hurry = True           # time may pass while a caller is preempted
        self.idle = True            # the listener is not in the middle of a datagram
        self.tasks = []
        self.reads = 0

    # per task, but the rest of the harness sees attributes of the world
    @property
    def delivering(self):
        return self.me.delivering if self.me else False

    @delivering.setter
    def delivering(self, value):
        if self.me:
            self.me.delivering = value

    @property
    def locks(self):
        return self.me.locks if self.me else 0

    @locks.setter
    def locks(self, value):
        if self.me:
            self.me.locks = value

    def begin(self):
        instrument()
        self.main = self.me = Task("caller")
        self.tasks.append(self.main)
        self.radio = self.spawn("listener", self.listening)
        self.active = True

    def spawn(self, name, target):
        task = Task(name)

        def body():
            task.go.acquire()
            try:
                if self.active:
                    target()
            except Stuck:
                pass
            except BaseException as err:
                from harness.api import Violation
                if isinstance(err, Violation):
                    self.problem = self.problem or str(err)
                elif self.error is None:
                    self.error = err
            task.done = True
            if self.active:
                try:
                    self.switch()
                except Stuck:
                    pass
        task.thread = threading.Thread(target=body, daemon=True)
        self.tasks.append(task)
        task.thread.start()
        return task

    def listening(self):
        while True:
            self.idle = True
            self.block(lambda: self.queue and self.queue[0][0] <= self.now)
            self.idle = False
            self.step()

    def finish(self):
        self.active = False
        for task in self.tasks:
            if task.thread is not None:
                task.go.release()
        for task in self.tasks:
            if task.thread is not None:
                task.thread.join(10)
                if task.thread.is_alive():
                    raise HarnessError("a task does not end")
        sys.monitoring.set_events(TOOL, 0)
        self.me = None
        super().finish()

    def stuck(self, problem):
        if self.problem is None:
            self.problem = problem
        raise Stuck(problem)

    # scheduling
    def runnable(self, task):
        if task.done:
            return False
        if task.blocked is None:
            return True
        return bool(task.deadline is not None and task.deadline <= self.now or task.blocked())

    def ready(self, but=None):
        return [t for t in self.tasks if t is not but and self.runnable(t)]

    def point(self, kind, spot=0):
        """A place where the running task can be preempted."""
        if not self.active:
            if self.me is not None and threading.current_thread() is not threading.main_thread():
                raise Stuck("over")
            return
        if self.problem is not None or self.error is not None:
            raise Stuck("over")
        if self.position >= len(self.schedule):
            return
        mode, n, choice = self.schedule[self.position]
        if mode == "spot":
            if kind != "line" or spot != n % SPOTS:
                return
        elif mode == kind or mode == "each" and kind == "line":
            self.count += 1
            if self.count <= n:
                return
        else:
            return
        others = self.ready(but=self.me)
        if not others and not (self.queue and self.idle and self.hurry):
            self.count = n          # as soon as there is another one
            return
        if mode == "each" and self.repeats < EACH:
            self.repeats += 1
            choice += self.repeats
        else:
            self.position += 1
            self.repeats = 0
        self.count = 0
        if not others:
            before = self.now
            self.now = max(self.now, self.queue[0][0])
            self.drift += self.now - before
            self.hurries += 1
            others = self.ready(but=self.me)
        self.switches += 1
        self.transfer(others[choice % len(others)])

    def transfer(self, task):
        if not self.active:
            raise Stuck("over")
        me = self.me
        if task is me:
            return
        self.me = task
        task.go.release()
        if not me.done:
            me.go.acquire()
        if not self.active or self.problem is not None or self.error is not None:
            if not (me is self.main and not self.active):
                raise Stuck("over")

    def switch(self):
        """The running task cannot go on."""
        if not self.active:
            raise Stuck("over")
        if self.problem is not None or self.error is not None:
            # let the main task find out
            if self.me is not self.main:
                self.me = self.main
                self.main.go.release()
            raise Stuck("over")
        while True:
            ready = self.ready()
            if ready:
                break
            times = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            if self.queue and not self.radio.done and self.radio.blocked is not None:
                times.append(self.queue[0][0])
            times = [t for t in times if t > self.now]
            if not times:
                self.problem = ("deadlock: every thread waits for another one, or for something "
                                "that will not happen: " + ", ".join(
                                    t.name for t in self.tasks if not t.done))
                if self.me is not self.main:
                    self.me = self.main
                    self.main.go.release()
                raise Stuck(self.problem)
            self.now = min(times)
        # the listener goes first, then the caller that waits longest
        self.transfer(self.radio if self.radio in ready else ready[0])

    def block(self, condition, deadline=None):
        me = self.me
        me.blocked, me.deadline = condition, deadline
        try:
            while not self.runnable(me):
                self.switch()
        finally:
            me.blocked = me.deadline = None

    # what the primitives call
    def tick(self):
        pass

    def time(self):
        self.point("sync")
        return self.now

    def interleave(self):
        self.point("sync")

    def run_due(self):
        self.point("sync")

    def hear(self, transport, source, data):
        if self.active and self.me is not self.radio:
            self.at(self.now, lambda: self.hear(transport, source, data))
        else:
            super().hear(transport, source, data)

    def acquire(self, lock, blocking):
        self.point("sync")
        if not self.active:
            lock.count += 1
            return True
        if lock.count:
            if lock.owner is self.me:
                if not lock.reentrant:
                    if not blocking:
                        return False
                    self.stuck("acquires a lock it already holds: deadlock")
            else:
                if not blocking:
                    return False
                self.block(lambda: not lock.count)
        lock.owner = self.me
        lock.count += 1
        self.locks += 1
        return True

    def release(self, lock):
        if not lock.count:
            raise RuntimeError("release unlocked lock")
        lock.count -= 1
        if not lock.count:
            lock.owner = None
        self.locks -= 1
        if self.active and self.problem is None:
            self.point("sync")

    def set_event(self, event):
        self.point("sync")
        event.flag = True
        self.point("sync")

    def join(self, tasks):
        self.block(lambda: all(t.done for t in tasks))

    def settle(self):
        self.block(lambda: self.idle, None)

    def sleep(self, seconds):
        self.block(lambda: False, self.now + seconds)

    def wait(self, event, timeout):
        if self.locks:
            self.stuck("waits on an event while holding a lock")
        self.point("sync")
        if event.flag:
            return True
        if timeout is not None and timeout <= 0:
            self.zero_waits += 1
            others = self.ready(but=self.me)
            if others:
                self.transfer(others[0])
            step = 0
            if self.zero_waits % 16 == 0:
                step = sim.UNIT * (1 if self.zero_waits < 2000 else 64)
                self.drift += step
            self.block(lambda: event.flag, self.now + step)
            return event.flag
        self.block(lambda: event.flag, None if timeout is None else self.now + timeout)
        return event.flag
