"""
The simulated world: storage seam control, scheduler, simulated locks and clock,
abort injection, fresh package instances and the ambient snapshot.
"""
import ast
import ctypes
import dis
import gc
import importlib
import importlib.machinery
import os
import random
import signal
import sys
import threading
import time
import _thread

REPO = "/repo"
PKG = "qctrlopencontrols"
PKGDIR = os.path.join(REPO, PKG) + "/"

OPEN, WRITE, CLOSE, SYNC, RENAME, UNLINK, TRUNC, META = (1, 2, 4, 8, 16, 32, 64, 128)
ERR, SHORT, EINTR, SIGINT, CRASH_BEFORE, CRASH_AFTER, CRASH_PARTIAL, HANG = range(1, 9)
KINDS = {
    "err": ERR,
    "short": SHORT,
    "eintr": EINTR,
    "sigint": SIGINT,
    "crash_before": CRASH_BEFORE,
    "crash_after": CRASH_AFTER,
    "crash_partial": CRASH_PARTIAL,
    "hang": HANG,
}
EXIT_CRASH, EXIT_CAP, EXIT_STUCK = 77, 78, 79

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread


class HarnessError(Exception):
    """The simulator, not the code under test, is at fault."""


_libc = ctypes.CDLL(None)


def die_with_parent():
    """No simulated process outlives the one that started it."""
    _libc.prctl(1, signal.SIGKILL)


# ---------------------------------------------------------------- storage seam


class Disk:
    def __init__(self):
        path = os.environ.get("SIM_SHIM")
        if not path:
            raise HarnessError("SIM_SHIM is not set")
        self.lib = ctypes.CDLL(path)
        self.lib.sim_log.restype = ctypes.c_char_p
        self.lib.sim_opcount.restype = ctypes.c_long
        self.lib.sim_outside.restype = ctypes.c_long
        self.lib.sim_opcap.argtypes = [ctypes.c_long]
        self.lib.sim_add_fault.argtypes = [
            ctypes.c_int,
            ctypes.c_int,
            ctypes.c_int,
            ctypes.c_int,
            ctypes.c_long,
            ctypes.c_int,
            ctypes.c_char_p,
        ]
        if path not in os.environ.get("LD_PRELOAD", ""):
            raise HarnessError("storage seam is not preloaded")

    def reset(self, root):
        self.lib.sim_reset(root.encode())
        self.lib.sim_opcap(200000)

    def arm(self, on=True):
        self.lib.sim_arm(1 if on else 0)

    def clear_faults(self):
        self.lib.sim_clear_faults()

    def add_fault(self, fault):
        index = self.lib.sim_add_fault(
            fault.get("ordinal", 0),
            fault["ops"],
            KINDS[fault["kind"]],
            fault.get("errno", 0),
            fault.get("arg", 500),
            1 if fault.get("sticky") else 0,
            fault.get("match", "").encode(),
        )
        if index < 0:
            raise HarnessError("too many faults")
        return index

    def fired(self, index):
        return self.lib.sim_fault_fired(index)

    def log(self):
        return self.lib.sim_log().decode("utf-8", "replace")

    def log_clear(self):
        self.lib.sim_log_clear()

    def opcount(self):
        return self.lib.sim_opcount()

    def outside(self):
        return self.lib.sim_outside()

    def open_files(self):
        return self.lib.sim_open_fds()


# ------------------------------------------------- fresh instances of the package

_code_cache = {}
_real_get_code = importlib.machinery.SourceFileLoader.get_code


before_code = None  # called before a file of the package is read


def _get_code(self, fullname):
    if not self.path.startswith(PKGDIR):
        return _real_get_code(self, fullname)
    if before_code is not None:
        before_code()
    if self.path not in _code_cache:
        _code_cache[self.path] = _real_get_code(self, fullname)
    return _code_cache[self.path]


importlib.machinery.SourceFileLoader.get_code = _get_code


def forget_package():
    for name in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
        del sys.modules[name]


def warm_package():
    """
    Reads the code of the package and imports what it imports without importing the
    package itself, so that the first import is left to the simulated processes.
    """
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(reader)
            before = set(sys.modules)
            importlib.import_module(PKG)
            with os.fdopen(writer, "w") as handle:
                handle.write(" ".join(n for n in sys.modules if n not in before))
        finally:
            os._exit(0)
    os.close(writer)
    with os.fdopen(reader) as handle:
        names = handle.read().split()
    os.waitpid(pid, 0)
    for name in names:
        if name != PKG and not name.startswith(PKG + "."):
            try:
                importlib.import_module(name)
            except ImportError:
                pass
    for base, dirs, files in os.walk(PKGDIR):
        for name in sorted(files):
            if name.endswith(".py"):
                path = os.path.join(base, name)
                try:
                    importlib.machinery.SourceFileLoader(name, path).get_code(name)
                except SyntaxError:
                    pass


def fresh_package():
    """Imports a new instance of the package under test, forgetting the current one."""
    forget_package()
    module = importlib.import_module(PKG)
    where = os.path.realpath(module.__file__)
    if not where.startswith(PKGDIR):
        raise HarnessError("package under test imported from " + where)
    return module


# --------------------------------------------------------------- scheduler


class Stuck(BaseException):
    """Unwinds a task when the simulation is over."""


class Task:
    def __init__(self, ident, body):
        self.ident = ident
        self.body = body
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = "ready"  # ready, blocked, asleep, done
        self.events = 0
        self.wake = 0.0
        self.real = None
        self.granted = False
        self.abort = None  # planned for the call in progress

    def grant(self):
        """Passes the baton; an interrupted wait may have left it lying."""
        self.granted = True
        try:
            self.baton.release()
        except RuntimeError:
            pass


class Policy:
    """Decides at each yield point which task continues; None keeps the current one."""

    def __init__(self, spec, count):
        self.spec = spec
        self.kind = spec["kind"]
        self.rng = random.Random(spec.get("seed", 0))
        if self.kind == "explicit":
            self.table = {(a, n): b for a, n, b in spec["switches"]}
        elif self.kind == "pct":
            self.prio = list(range(count))
            self.rng.shuffle(self.prio)
            horizon = spec["horizon"]
            self.changes = {
                self.rng.randrange(1, max(2, horizon)): k for k in range(spec["depth"])
            }
            self.low = -1
        elif self.kind == "random":
            self.threshold = spec["p"]
        elif self.kind == "hot":
            self.salt = self.rng.randrange(1 << 30)
            self.mod = spec["mod"]
        elif self.kind == "robin":
            self.every = spec["every"]
        elif self.kind == "visits":
            # one task runs only at chosen steps, the others as a random schedule
            self.guest = spec["task"]
            self.times = set(spec["at"])
            self.threshold = spec["p"]
        elif self.kind != "serial":
            raise HarnessError("unknown policy " + self.kind)

    def decide(self, sched, task, where):
        kind = self.kind
        if kind == "explicit":
            target = self.table.get((task.ident, task.events))
            return None if target is None else sched.task_or_none(target)
        if kind == "random":
            if self.rng.random() >= self.threshold:
                return None
        elif kind == "hot":
            if (where * 2654435761 + self.salt) % 1000003 % self.mod:
                if self.rng.random() >= 0.0005:
                    return None
            elif self.rng.random() >= 0.4:
                return None
        elif kind == "robin":
            if sched.steps % self.every:
                return None
        elif kind == "serial":
            return None
        elif kind == "visits":
            hosts = [t for t in sched.ready() if t.ident != self.guest and t is not task]
            if task.ident == self.guest:
                return hosts[self.rng.randrange(len(hosts))] if hosts else None
            if sched.steps in self.times:
                return sched.task_or_none(self.guest)
            if not hosts or self.rng.random() >= self.threshold:
                return None
            return hosts[self.rng.randrange(len(hosts))]
        elif kind == "pct":
            if sched.steps in self.changes:
                self.low -= 1
                self.prio[task.ident] = self.low
            ready = sched.ready()
            return max(ready, key=lambda t: self.priority(t))
        others = [t for t in sched.ready() if t is not task]
        if not others:
            return None
        if kind == "robin":
            later = [t for t in others if t.ident > task.ident]
            return (later or others)[0]
        return others[self.rng.randrange(len(others))]

    def priority(self, task):
        while len(self.prio) <= task.ident:
            self.prio.append(-1)
        return self.prio[task.ident]


class Scheduler:
    PATIENCE = 60.0  # simulated seconds another thread may look again and again

    def __init__(self, world, policy_spec, bodies, step_cap=3000000):
        self.world = world
        self.tasks = [Task(i, body) for i, body in enumerate(bodies)]
        self.planned = len(bodies)
        self.created = len(bodies) - 1
        self.policy = Policy(policy_spec, len(bodies))
        self.steps = 0
        self.step_cap = step_cap
        self.current = self.tasks[0]
        self.switches = []
        self.trail = []
        self.finished = _real_allocate()
        self.finished.acquire()
        self.importing = 0
        self.watch = None  # called at every yield point
        self.hung = []  # (fault, task) of storage operations that do not return
        self.owners = {}  # planned task whose export a fault belongs to

    # -- bookkeeping

    def task_or_none(self, ident):
        if ident < len(self.tasks) and self.tasks[ident].state == "ready":
            return self.tasks[ident]
        return None

    def ready(self):
        return [t for t in self.tasks if t.state == "ready"]

    def here(self):
        """The task of the calling thread if it is simulated and holds the baton."""
        task = self.current
        if task is not None and task.real == _thread.get_ident():
            return task
        return None

    # -- yield points

    def point(self, where):
        if self.importing:
            return
        task = self.current
        task.events += 1
        self.steps += 1
        if self.steps > self.step_cap:
            self.world.give_up("does not finish: more than %d steps" % self.step_cap)
        if self.watch is not None:
            self.watch(where)
        target = self.policy.decide(self, task, where)
        if target is not None and target is not task:
            self.switches.append((task.ident, task.events, target.ident))
            self.trail.append((task.ident, where, target.ident))
            self.hand_over(task, target)

    def hand_over(self, task, target):
        task.granted = False
        if target.state == "hung":
            self.go_on(target)
        else:
            self.current = target
            target.grant()
        pending = None
        while not task.granted:
            try:
                task.baton.acquire()
            except BaseException as error:  # a signal; delivered when this thread runs again
                pending = error
        if pending is not None:
            raise pending

    def next_forced(self, task):
        """Another task must continue; deterministic choice."""
        while True:
            ready = [t for t in self.ready() if t is not task]
            if ready:
                later = [t for t in ready if t.ident > task.ident]
                return (later or ready)[0]
            asleep = [t for t in self.tasks if t.state == "asleep"]
            if not asleep:
                return None
            first = min(asleep, key=lambda t: (t.wake, t.ident))
            self.world.clock.now = max(self.world.clock.now, first.wake)
            if self.hung and self.world.clock.now > self.hung_at + self.PATIENCE:
                self.first_hung()
            first.state = "ready"
            if first is task:
                return task

    def block(self, task, state="blocked", wake=0.0):
        task.state = state
        task.wake = wake
        target = self.next_forced(task)
        if target is None:
            target = self.first_hung()
        if target is None:
            self.world.give_up("deadlock: every thread waits for another")
        try:
            if target is not task:
                if self.policy.kind != "serial":
                    self.trail.append((task.ident, -1, target.ident))
                self.hand_over(task, target)
        finally:
            task.state = "ready"

    # -- storage operations that hang

    def monitor(self):
        """Runs in a thread of its own: passes the baton of a task whose storage operation hangs."""
        hanging = self.world.disk.lib.sim_hanging
        while True:
            fault = hanging()
            if fault < 0:
                return
            task = self.current
            task.state = "hung"
            self.hung.append((fault, task))
            self.hung_at = self.world.clock.now
            target = self.next_forced(task)
            self.trail.append((task.ident, -4, target.ident if target else -1))
            if target is None:
                self.go_on(self.first_hung())
            else:
                self.current = target
                target.grant()

    def first_hung(self):
        """The task that has been hanging longest; nobody else may be waiting for it."""
        if not self.hung:
            return None
        mine = {self.owners.get(fault) for fault, _ in self.hung}
        for task in self.tasks[: self.planned]:
            if task.state in ("blocked", "asleep") and task.ident not in mine:
                self.world.give_up("hangs: thread %d waits for an export that hangs" % task.ident)
        return self.hung[0][1]

    def go_on(self, task):
        """A hanging operation returns at last."""
        fault = next(f for f, t in self.hung if t is task)
        self.hung = [(f, t) for f, t in self.hung if t is not task]
        task.state = "ready"
        self.current = task
        self.world.disk.lib.sim_go_on(fault)

    def finish(self, task):
        task.state = "done"
        sentinel = self.world.sentinels.pop(task.real, None)
        if sentinel is not None and sentinel.locked():
            sentinel._locked = False
            self.world.unblock(("lock", id(sentinel)))
        target = self.next_forced(task)
        if target is None and self.hung:
            self.go_on(self.first_hung())
        elif target is None:
            # threads the library started for itself may wait for work for ever
            if any(t.state == "blocked" for t in self.tasks[: self.planned]):
                self.world.give_up("deadlock: every thread waits for another")
            self.current = None
            self.finished.release()
        else:
            self.current = target
            target.grant()

    # -- running

    def _thread_main(self, task):
        task.real = _thread.get_ident()
        task.baton.acquire()
        try:
            self.world.trace_on()
            try:
                task.body()
            finally:
                sys.settrace(None)
        except BaseException as error:  # bodies catch what they expect
            import traceback

            self.world.harness_failure(
                "task %d: %r\n%s" % (task.ident, error, traceback.format_exc())
            )
        self.finish(task)

    def spawn(self, body):
        """A thread started by the code under test joins the simulation."""
        self.created += 1
        task = Task(self.created, body)
        if self.policy.kind == "serial":
            self.tasks = [t for t in self.tasks if t.state != "done" or t.ident < self.planned]
        self.tasks.append(task)
        _real_start(self._thread_main, (task,))
        while task.real is None:
            _real_sleep(0.0002)
        return task

    def adopt(self):
        """The calling thread becomes the first task."""
        self.tasks[0].real = _thread.get_ident()
        return self

    def run(self):
        for task in self.tasks[1:]:
            _real_start(self._thread_main, (task,))
        for task in self.tasks[1:]:
            while task.real is None:
                _real_sleep(0.0002)
        if self.owners:
            _real_start(self.monitor, ())
        first = self.tasks[0]
        first.real = _thread.get_ident()
        self.world.trace_on()
        try:
            first.body()
        finally:
            sys.settrace(None)
        self.finish(first)
        self.finished.acquire()
        if self.owners:
            self.world.disk.lib.sim_over()


# ---------------------------------------------------- simulated locks and clock


_guard = _real_allocate()


class SimLock:
    """A lock whose waiting is visible to the scheduler."""

    def __init__(self):
        self._holder = None
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        sched = WORLD.sched
        task = sched.here() if sched else None
        if task is None:
            return self._acquire_alone(blocking, timeout)
        sched.point(-2)
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = WORLD.clock.now + timeout
        while self._locked:
            if not blocking:
                return False
            if deadline is not None:
                if WORLD.clock.now >= deadline:
                    return False
                WORLD.waiting.setdefault(("lock", id(self)), []).append(task)
                sched.block(task, "asleep", deadline)
            else:
                WORLD.waiting.setdefault(("lock", id(self)), []).append(task)
                sched.block(task)
        self._locked = True
        return True

    def _acquire_alone(self, blocking, timeout):
        """Outside a simulation of threads; the library may still have started some."""
        patience = 20000
        while True:
            with _guard:
                if not self._locked:
                    self._locked = True
                    return True
            if not blocking:
                return False
            if not WORLD.unscheduled:
                if timeout is not None and timeout >= 0:
                    WORLD.clock.now += timeout
                    return False
                WORLD.give_up("deadlock: a single thread waits for its own lock")
            patience -= 1
            if not patience:
                if timeout is not None and timeout >= 0:
                    return False
                WORLD.give_up("deadlock: every thread waits for another")
            _real_sleep(0.0005)

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        WORLD.unblock(("lock", id(self)))
        sched = WORLD.sched
        if sched and sched.here() is not None:
            sched.point(-3)

    def locked(self):
        return self._locked

    __enter__ = acquire
    acquire_lock = acquire
    release_lock = release

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self.__init__()


_real_sleep = time.sleep


class Clock:
    """All clocks read the same simulated time; reading it advances it a little."""

    def __init__(self):
        self.now = 1.6e9
        self.tick = 1e-6
        self.wall_offset = 0.0

    def read(self):
        self.now += self.tick
        return self.now

    def wall(self):
        return self.read() + self.wall_offset


class _Entropy:
    def __init__(self):
        self.rng = random.Random(0)

    def bytes(self, count):
        return bytes(self.rng.getrandbits(8) for _ in range(count))


# ------------------------------------------------------------------ the world


class World:
    def __init__(self):
        self.disk = None
        self.sched = None
        self.clock = Clock()
        self.entropy = _Entropy()
        self.waiting = {}
        self.sentinels = {}
        self.unscheduled = 0
        self.sleeps = 0
        self.switches = None  # of threads that have ended
        self.report = None
        self.tracer = None
        self.on_sleep = None  # several processes: the others may go on

    # -- verdicts that end the process at once

    def give_up(self, what):
        self.disk.arm(False)
        switches = self.sched.switches if self.sched else []
        self.report({"stuck": what, "switches": self.switches if self.switches is not None else switches})
        os._exit(EXIT_STUCK)

    def harness_failure(self, what):
        self.disk.arm(False)
        self.report({"harness": what})
        os._exit(3)

    def unblock(self, key):
        for task in self.waiting.pop(key, []):
            if task.state in ("blocked", "asleep"):
                task.state = "ready"

    # -- tracing

    def trace_on(self):
        if self.tracer is not None:
            sys.settrace(self.tracer)


WORLD = World()


def once(handler):
    """
    A trace function for one frame that leaves out events for the line or bytecode that
    was the last one already: whether the interpreter reports it again depends on when its
    just-in-time compiler takes over.
    """
    line = lasti = None

    def local(frame, event, arg):
        nonlocal line, lasti
        if event == "opcode":
            if frame.f_lasti == lasti:
                return local
            lasti = frame.f_lasti
        elif event == "line":
            if frame.f_lineno == line:
                return local
            line = frame.f_lineno
        handler(frame, event)
        return local

    return local


def opcode_tracer(sched, opcodes=True, modules=False):
    """Yields to the scheduler at bytecodes of the package and at calls it makes."""

    def handle(frame, event):
        if event == "opcode" or event == "line" and not opcodes:
            sched.point(frame.f_lineno * 512 + (frame.f_lasti & 511) if opcodes else frame.f_lineno)
        elif event == "return":
            sched.point(frame.f_lineno)
        abort = sched.current.abort
        if abort is not None and frame.f_code.co_name not in abort.CLEANUP:
            abort.consider(frame, event)

    def importing(frame, event, arg):
        if event == "return":
            sched.importing -= 1
        return importing

    def enter(frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(PKGDIR):
            if sched.current.real != _thread.get_ident():
                return None
            if frame.f_code.co_name == "<module>" and not modules:
                # the runtime's import locks are real: nobody else runs meanwhile
                sched.importing += 1
                return importing
            if opcodes:
                frame.f_trace_opcodes = True
            sched.point(frame.f_lineno)
            return once(handle)
        return None

    return enter


FAILING = {
    code
    for name, code in dis.opmap.items()
    if name.startswith(("CALL", "BINARY", "INPLACE", "COMPARE", "STORE_SUBSCR"))
}


class AbortPlan:
    """
    Raises an exception at the n-th abortable line executed in the package, or with
    calls=True in place of the n-th call or operation made by it.
    """

    def __init__(self, at=None, error=None, calls=False):
        self.at = at
        self.error = error
        self.calls = calls
        self.count = 0
        self.fired = None
        self.functions = {}  # when only counting: positions in each function

    CLEANUP = ("__exit__", "__enter__", "__del__")

    def consider(self, frame, event):
        """Raises if this event of a frame of the package is the planned one."""
        if self.calls:
            relevant = event == "opcode" and frame.f_code.co_code[frame.f_lasti] in FAILING
        else:
            relevant = event == "line"
        if relevant and abortable(frame.f_code.co_filename, frame.f_lineno):
            if self.count == self.at and self.fired is None:
                self.count += 1
                self.fired = "%s:%d" % (
                    frame.f_code.co_filename[len(PKGDIR) :],
                    frame.f_lineno,
                )
                if self.calls:
                    self.fired += ":%d" % frame.f_lasti
                raise self.error
            if self.at is None:
                places = self.functions.setdefault(frame.f_code.co_name, [])
                if len(places) < 400:
                    places.append(self.count)
            self.count += 1

    def tracer(self):
        def enter(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKGDIR):
                if frame.f_code.co_name in self.CLEANUP:
                    return None
                if self.calls:
                    frame.f_trace_opcodes = True
                return once(self.consider)
            return None

        return enter


_protected = {}


def warm_abortable():
    for base, _, names in os.walk(PKGDIR):
        for name in names:
            if name.endswith(".py"):
                abortable(os.path.join(base, name), 0)


def abortable(filename, line):
    """
    False inside cleanup code and at the edges of try/with statements, where even
    careful code cannot defend itself against an asynchronous exception.
    """
    if filename not in _protected:
        bad = set()
        try:
            with open(filename, "rb") as handle:
                tree = ast.parse(handle.read())
            for node in ast.walk(tree):
                if isinstance(node, ast.Try):
                    bad.add(node.lineno)
                    for part in (node.finalbody, node.handlers):
                        for item in part:
                            bad.update(range(item.lineno, item.end_lineno + 1))
                elif isinstance(node, (ast.With, ast.AsyncWith)):
                    first = node.body[0].lineno
                    bad.update(range(node.lineno, first))
                    if first == node.lineno:
                        bad.add(first)
                elif isinstance(node, ast.FunctionDef) and any(
                    "contextmanager" in ast.dump(d) for d in node.decorator_list
                ):
                    bad.update(range(node.lineno, node.end_lineno + 1))
        except SyntaxError:
            pass
        _protected[filename] = bad
    return line not in _protected[filename]


# --------------------------------------------------------------- installation


def _unscheduled(function, args, kwargs):
    try:
        function(*args, **kwargs)
    finally:
        sentinel = WORLD.sentinels.pop(_thread.get_ident(), None)
        if sentinel is not None:
            sentinel._locked = False
        with _guard:
            WORLD.unscheduled -= 1


def _sim_start_new_thread(function, args, kwargs=None):
    sched = WORLD.sched
    if sched is None or sched.here() is None:
        with _guard:
            WORLD.unscheduled += 1
        return _real_start(_unscheduled, (function, args, kwargs or {}))
    task = sched.spawn(lambda: function(*args, **(kwargs or {})))
    return task.real


def _sim_sleep(seconds):
    sched = WORLD.sched
    task = sched.here() if sched else None
    if WORLD.on_sleep is not None:
        WORLD.on_sleep()
    else:
        WORLD.sleeps += 1
        if WORLD.sleeps > 200000 and WORLD.report is not None:
            WORLD.give_up("does not finish: waits again and again")
    if task is None:
        WORLD.clock.now += seconds
        return
    sched.block(task, "asleep", WORLD.clock.now + seconds)


def _sim_set_sentinel():
    lock = SimLock()
    WORLD.sentinels[_thread.get_ident()] = lock
    return lock


def install():
    """Replaces what the simulator owns; done before the package is first imported."""
    import functools
    import tempfile

    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    functools.RLock = SimRLock
    threading._start_new_thread = _sim_start_new_thread
    threading._set_sentinel = _sim_set_sentinel
    tempfile._allocate_lock = SimLock
    tempfile._once_lock = SimLock()
    time.sleep = _sim_sleep
    time.time = lambda: WORLD.clock.wall()
    time.time_ns = lambda: int(WORLD.clock.wall() * 1e9)
    for name in ("monotonic", "perf_counter", "process_time", "thread_time"):
        if hasattr(time, name):
            setattr(time, name, lambda: WORLD.clock.read())
            setattr(time, name + "_ns", lambda: int(WORLD.clock.read() * 1e9))
    os.urandom = lambda count: WORLD.entropy.bytes(count)
    random._urandom = os.urandom
    signal.signal(signal.SIGINT, signal.default_int_handler)
    gc.disable()
