"""
Execution of plans.  Every run happens in a forked child, so that it starts from the
same process state; the child reports JSON lines through a pipe.
"""
import gc
import hashlib
import json
import os
import random
import resource
import select
import shutil
import signal
import socket
import sys
import threading
import time as _time
import traceback
import warnings

import numpy as np

from . import ops as O
from . import world as W
from .world import WORLD

_monotonic = _time.monotonic  # taken before the simulated clock is installed
WALL_LIMIT = 120.0


class SimAbort(BaseException):
    """An abort that no code expects."""


ABORTS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "SystemExit": SystemExit,
    "SimAbort": SimAbort,
}

# settings each thread has for itself: other threads do not see them change
OF_THE_THREAD = ("numpy error handling", "numpy error callback", "decimal context")


# ------------------------------------------------------------------- processes


def in_child(body, root):
    """Runs body in a fork; returns (records, exit status)."""
    if not os.path.isabs(root) or "/verif-sim-" not in root:
        raise W.HarnessError("refusing to use %r as scratch" % root)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "tmp"))
    return fork(body, root)


def starved(pid):
    """Whether a process could not finish in time because others kept the processors busy."""
    used, running = 0, False
    for task in os.listdir("/proc/%d/task" % pid):
        try:
            with open("/proc/%d/task/%s/stat" % (pid, task)) as handle:
                fields = handle.read().rpartition(")")[2].split()
        except OSError:  # a thread that has just ended
            continue
        used += int(fields[11]) + int(fields[12])
        running = running or fields[0] == "R"
    return running and used < 0.7 * WALL_LIMIT * os.sysconf("SC_CLK_TCK")


def fork(body, root):
    reader, writer = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(reader)
        status = 0
        try:
            W.die_with_parent()
            WORLD.unscheduled = 0

            def report(record):
                data = (json.dumps(record) + "\n").encode()
                while data:
                    data = data[os.write(writer, data) :]

            WORLD.report = report
            WORLD.report_fd = writer
            os.environ["TMPDIR"] = os.environ["HOME"] = os.path.join(root, "tmp")
            os.chdir(root)
            WORLD.disk.reset(root)
            # threads the library starts for itself take turns with this one
            WORLD.sched = W.Scheduler(WORLD, {"kind": "serial"}, [body]).adopt()
            body()
            WORLD.disk.arm(False)
        except BaseException:
            WORLD.disk.arm(False)
            status = 3
            try:
                report({"harness": traceback.format_exc()})
            except BaseException:
                pass
        finally:
            os._exit(status)
    os.close(writer)
    chunks = []
    deadline = _monotonic() + WALL_LIMIT
    extended = 0.0
    status = None
    while True:
        left = deadline - _monotonic()
        if left <= 0 or not select.select([reader], [], [], left)[0]:
            status = "timeout"
            if starved(pid):
                status = None if extended < 3 * WALL_LIMIT else "starved"
            if status is None:
                deadline += WALL_LIMIT / 2
                extended += WALL_LIMIT / 2
                continue
            os.kill(pid, signal.SIGKILL)
            break
        chunk = os.read(reader, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(reader)
    _, code = os.waitpid(pid, 0)
    if status is None:
        status = os.WEXITSTATUS(code) if os.WIFEXITED(code) else -os.WTERMSIG(code)
    text = b"".join(chunks).decode()
    records = []
    for line in text.split("\n"):
        if line:
            try:
                records.append(json.loads(line))
            except ValueError:
                if status == 0:
                    raise
    for record in records:
        if "harness" in record:
            raise W.HarnessError(record["harness"])
    if status == 3:
        raise W.HarnessError("child failed without a report")
    return records, status


# ---------------------------------------------------------------------- files


def descriptors():
    """The open descriptors, without the one that listing them needs."""
    return {n for n in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + n)}


def tree(root):
    """Content of every file below root."""
    result = {}
    for base, dirs, files in os.walk(root):
        dirs.sort()
        rel = os.path.relpath(base, root)
        if rel != ".":
            result[rel + "/"] = None
        for name in sorted(files):
            path = os.path.join(base, name)
            with open(path, "rb") as handle:
                result[os.path.normpath(os.path.join(rel, name))] = handle.read()
    return result


def tree_diff(before, after, ignore=()):
    changes = []
    for path in sorted(set(before) | set(after)):
        if path in ignore:
            continue
        if path not in after:
            changes.append("removed " + path)
        elif path not in before:
            changes.append("created " + path)
        elif before[path] != after[path]:
            changes.append("changed " + path)
    return changes


def place_files(root, files):
    """Puts the earlier contents of the simulated disk in place."""
    for path, content in sorted(files.items()):
        full = os.path.join(root, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if content is not None:
            with open(full, "wb") as handle:
                handle.write(content.encode())


def content_of(spec):
    """Earlier contents are described, not stored, in plans."""
    kind, size = spec
    if kind == "text":
        return "earlier content\n" * size
    if kind == "digits":
        return ",".join(str(i * 0.37) for i in range(size)) + "\n"
    if kind == "json":
        return json.dumps({"name": "older", "values": list(range(size))})
    return ""


# --------------------------------------------------------------------- ambient


def _arr(a):
    return a.tobytes() if isinstance(a, np.ndarray) else a


# set by the standard library itself when first needed
LAZY = ("tempfile.tempdir",)


def _watch_modules():
    import builtins
    import collections
    import copy
    import csv
    import decimal
    import enum
    import io
    import locale
    import logging
    import math
    import random
    import tempfile
    import time

    modules = (np, json, csv, os, io, math, builtins, np.random, np.linalg, sys.modules["json.encoder"])
    modules += (tempfile, warnings, random, time, locale, threading, logging, signal, decimal, enum, collections, copy, os.path)
    return modules


def _places():
    """Functions, classes and plain values in the standard library and numpy, also those of classes."""
    found = []
    kinds = (int, float, str, tuple, type(None), staticmethod, classmethod)
    for module in _watch_modules():
        for name, value in sorted(vars(module).items()):
            label = "%s.%s" % (module.__name__, name)
            if name.startswith("_") and module.__name__ != "json.encoder" or name.startswith("__") or label in LAZY:
                continue
            if callable(value) or isinstance(value, kinds):
                found.append((label, vars(module), name))
            # classes written in Python, others cannot be changed
            family = getattr(value, "__module__", None) or ""
            if not isinstance(value, type) or not value.__flags__ & (1 << 9) or issubclass(value, BaseException):
                continue
            if family.split(".")[0] == module.__name__.split(".")[0]:
                for inner, content in sorted(value.__dict__.items()):
                    if inner.startswith("_abc_"):
                        continue  # what isinstance has found out
                    if callable(content) or isinstance(content, kinds):
                        found.append((label + "." + inner, value.__dict__, inner))
    return found


PLACES = _places()


def attributes():
    return [where.get(name) for _, where, name in PLACES]


def changed_attributes(before, after):
    if len(before) != len(after):
        return []
    return [PLACES[i][0] for i, (a, b) in enumerate(zip(before, after)) if a is not b]


_PRINTED = np.array([1.5, -2.25])


def ambient(pkg, deep=True):
    """Everything process-wide that a call could change."""
    import csv
    import decimal
    import locale
    import logging
    import random

    snap = {
        "numpy error handling": dict(np.geterr()),
        "numpy error callback": id(np.geterrcall()),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "random state": random.getstate(),
        "warning filters": [
            (f[0], getattr(f[1], "pattern", f[1]), f[2], getattr(f[3], "pattern", f[3]), f[4])
            for f in warnings.filters
        ],
        "showwarning": id(warnings.showwarning),
        "working directory": os.getcwd(),
        "environment": dict(os.environ._data),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": [
            (s, signal.getsignal(s)) for s in range(1, 32) if s not in (9, 19)
        ],
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook)),
        "sys.path": list(sys.path),
        "sys.argv": list(sys.argv),
        "recursion limit": sys.getrecursionlimit(),
        "decimal context": repr(decimal.getcontext()),
        "csv dialects": (sorted(csv.list_dialects()), csv.field_size_limit()),
        "gc": gc.isenabled(),
        "numpy buffer size": np.getbufsize(),
        "switch interval": sys.getswitchinterval(),
        "import hooks": [id(x) for x in sys.meta_path + sys.path_hooks],
        "bytecode writing": sys.dont_write_bytecode,
        "stack size of threads": threading.stack_size(),
        "thread hook": id(threading.excepthook),
        "socket timeout": socket.getdefaulttimeout(),
        "resource limits": [
            resource.getrlimit(x)
            for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_CORE, resource.RLIMIT_STACK, resource.RLIMIT_AS)
        ],
        "alarms": [bool(signal.getitimer(x)[0]) for x in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "root logger": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
    }
    if deep:
        snap["numpy array printing"] = (repr(_PRINTED), str(_PRINTED))
        snap["numpy random state"] = tuple(_arr(x) for x in np.random.get_state())
    mask = os.umask(0o22)
    os.umask(mask)
    snap["umask"] = mask
    constants = {}
    module = sys.modules.get(W.PKG + ".constants") if pkg is not None else None
    for name, value in sorted(vars(module).items()) if module else ():
        if name.isupper():
            constants[name] = (
                (value.dtype.str, value.shape, value.tobytes())
                if isinstance(value, np.ndarray)
                else repr(value)
            )
    snap["library constants"] = constants
    if deep:
        snap["attributes"] = attributes()
    return snap


def ambient_diff(before, after):
    changed = []
    for key in after:
        if key not in before:
            continue
        a, b = before[key], after[key]
        if key == "attributes":
            changed.extend(changed_attributes(a, b))
        elif a != b:
            changed.append(key)
    return changed


class EnvSpy:
    """Answers unset environment variables looked up by the package with a planned value."""

    def __init__(self, value):
        self.value = value
        self.asked = []
        environ = type(os.environ)
        self.real = environ.__getitem__
        spy = self

        def getitem(env, key):
            try:
                return spy.real(env, key)
            except KeyError:
                frame = sys._getframe(1)
                for _ in range(4):
                    if frame is None:
                        break
                    if frame.f_code.co_filename.startswith(W.PKGDIR):
                        spy.asked.append(str(key))
                        return spy.value
                    frame = frame.f_back
                raise

        environ.__getitem__ = getitem


def apply_ambient(spec):
    """Perturbs process-wide state; everything here is documented not to matter."""
    import locale
    import random

    if "print" in spec:
        options = dict(spec["print"])
        if options.get("formatter"):
            options["formatter"] = {options["formatter"]: lambda value: "%.2f" % value}
        np.set_printoptions(**options)
    if "err" in spec:
        np.seterr(**spec["err"])
    if "seed" in spec:
        random.seed(spec["seed"])
        np.random.seed(spec["seed"])
        WORLD.entropy.rng.seed(spec["seed"])
    if "cwd" in spec:
        os.makedirs(spec["cwd"], exist_ok=True)
        os.chdir(spec["cwd"])
    for key, value in spec.get("env", {}).items():
        os.environ[key] = value
    if "env_fuzz" in spec:
        EnvSpy(spec["env_fuzz"])
    if "clock" in spec:
        WORLD.clock.now = spec["clock"]
        WORLD.clock.tick = spec.get("tick", 1e-6)
    if "locale" in spec:
        try:
            locale.setlocale(locale.LC_ALL, spec["locale"])
        except locale.Error:
            pass
    if "umask" in spec:
        os.umask(spec["umask"])
    if "warn" in spec:
        warnings.simplefilter(spec["warn"])
    if "recursion" in spec:
        sys.setrecursionlimit(spec["recursion"])


# --------------------------------------------------------------------- calls


def guarded(call, keep=None):
    """Performs a call of the code under test; returns (canonical outcome, live value)."""
    try:
        value = call()
    except BaseException as error:
        sys.settrace(None)
        if keep is not None:
            keep.append(error)
        return O.canon(error), None
    return O.canon(value), value


def late_signals():
    """A second Ctrl-C may still be on its way when the call has ended."""
    try:
        for _ in range(2000):
            pass
    except KeyboardInterrupt:
        pass


def digest(value):
    return hashlib.sha1(json.dumps(value).encode()).hexdigest()[:16]


class History:
    """A single-threaded history of calls in one process."""

    def __init__(self, plan, root):
        self.plan = plan
        self.root = root
        self.pkg = W.fresh_package()
        self.live = {}  # slot -> value
        self.spec = {}  # slot -> specification
        self.touched = set()  # slots changed in place by the caller
        self.equivalents = {}
        self.pending = []  # changes seen outside the judged calls
        if plan.get("gc"):
            gc.enable()
        self.base = ambient(self.pkg) if plan.get("watch_ambient") else None

    def run(self):
        plan = self.plan
        place_files(self.root, {p: content_of(c) for p, c in plan.get("files", {}).items()})
        for path in plan.get("dirs", []):
            os.makedirs(os.path.join(self.root, path), exist_ok=True)
        if "ambient" in plan:
            apply_ambient(plan["ambient"])
        if "import" in plan:
            self.import_again(plan["import"])
        for i, spec in enumerate(plan.get("objs", [])):
            outcome, value = guarded(lambda: O.build(self.pkg, spec))
            self.live["o%d" % i] = value
            self.spec["o%d" % i] = spec
            if value is None:
                WORLD.report({"setup": i, "out": outcome})
        at = int(plan.get("prelude", {}).get("at", 0.0) * len(plan["ops"]))
        for i, op in enumerate(plan["ops"]):
            if i == at and "prelude" in plan:
                before = self.others()
                life.prelude(plan, self.pkg, self.root)
                self.pending = self.changed(before, "a series of calls")
            getattr(self, "do_" + op["do"])(i, op)

    def import_again(self, how):
        """Imports the package anew, perhaps aborted part-way first."""
        record = {"import": True, "notes": []}
        fds = descriptors()
        if "fraction" in how:
            count = W.AbortPlan()
            sys.settrace(count.tracer())
            W.fresh_package()
            sys.settrace(None)
            error = ABORTS[how["error"]]("simulated abort")
            abort = W.AbortPlan(int(how["fraction"] * count.count), error)
            W.forget_package()
            sys.settrace(abort.tracer())
            keep = []
            guarded(lambda: __import__(W.PKG) and None, keep)
            sys.settrace(None)
            record["aborted"] = abort.fired
            if abort.fired and not (keep and keep[0] is error):
                record["notes"].append("the import did not pass on " + how["error"])
        else:
            W.forget_package()
        snap = ambient(None)
        WORLD.disk.log_clear()
        outside = WORLD.disk.outside()
        WORLD.disk.arm(True)
        out, _ = guarded(lambda: __import__(W.PKG) and None)
        WORLD.disk.arm(False)
        if out[0] == "exc":
            record["notes"].append("the package cannot be imported: %s" % out[1:])
        else:
            self.pkg = sys.modules[W.PKG]
        if WORLD.disk.outside() != outside:
            record["notes"].append("the import touched files")
        record["leaked"] = len(descriptors() - fds)
        record["ambient"] = ambient_diff(snap, ambient(None))
        WORLD.report(record)

    # -- helpers

    def others(self, *except_for):
        return {s: O.canon(v) for s, v in self.live.items() if s not in except_for and v is not None}

    def changed(self, before, what):
        notes = []
        for slot, image in before.items():
            now = O.canon(self.live[slot])
            if now != image:
                notes.append("%s changed %s: %s became %s" % (what, slot, O.short(image, 160), O.short(now, 160)))
        return notes

    def observe(self, i, op, call, record):
        """One call with everything the oracles may ask about it."""
        disk = WORLD.disk
        storage = op.get("storage")
        if storage:
            before_tree = tree(self.root)
            fds = descriptors()
        if self.plan.get("watch_live", True):
            before = self.others()
        snap = ambient(self.pkg) if self.plan.get("watch_ambient") else None
        disk.clear_faults()
        disk.log_clear()
        faults = [disk.add_fault(f) for f in op.get("faults", [])]
        abort = None
        if "abort" in op:
            how = op["abort"]
            abort = W.AbortPlan(how["at"], ABORTS[how["error"]]("simulated abort"), how.get("calls", False))
        elif self.plan.get("count_lines"):
            abort = W.AbortPlan()
        outside = disk.outside()
        count = disk.opcount()
        keep = []
        disk.arm(True)
        if "places" in op:
            swept = self.sweep(op, call)
        if abort is not None:
            sys.settrace(abort.tracer())
        elif self.plan.get("watchdog"):
            sys.settrace(watchdog())
        out, value = guarded(call, keep)
        sys.settrace(None)
        disk.arm(False)
        if "places" in op:
            record["swept"] = swept
        if any(f["kind"] == "sigint" for f in op.get("faults", [])):
            late_signals()
        record["out"] = out
        notes = record.setdefault("notes", [])
        if self.pending:
            notes.extend(self.pending)
            self.pending = []
        if disk.outside() != outside:
            record["outside"] = [n for n in disk.log().split("\n") if n.startswith("OUTSIDE")][:4]
        if faults:
            record["fired"] = [disk.fired(k) for k in faults]
        disk.clear_faults()
        if storage:
            record["ops"] = disk.opcount() - count
            record["log"] = disk.log().split("\n")[:-1][:40]
            after = tree(self.root)
            record["tree"] = tree_diff(before_tree, after, op.get("ignore", []))
            record["leaked"] = len(descriptors() - fds)
        if abort is not None:
            record["lines"] = abort.count
            if "abort" in op:
                record["aborted"] = abort.fired
                if abort.fired and not (keep and keep[0] is abort.error):
                    record["lost_abort"] = True
        if snap is not None:
            record["ambient"] = ambient_diff(snap, ambient(self.pkg))
        if self.plan.get("watch_live", True):
            notes.extend(self.changed(before, "the call"))
        return value

    # -- operations of a plan

    def repeat(self, op, call, record):
        """The same call many more times."""
        for k in range(op.get("times", 0)):
            out, _ = guarded(call)
            if out != record["out"] and not O.close(out, record["out"]):
                record["notes"].append("repetition %d gave %s instead of %s" % (k + 1, O.short(out, 160), O.short(record["out"], 160)))
                break

    def sweep(self, op, call):
        """The call aborted at one place after the other."""
        swept = {"fired": [], "lost": [], "outs": []}
        for at in op["places"]:
            abort = W.AbortPlan(at, ABORTS[op["error"]]("simulated abort"), op.get("calls", False))
            keep = []
            sys.settrace(abort.tracer())
            out, _ = guarded(call, keep)
            sys.settrace(None)
            if not abort.fired:
                if out not in swept["outs"]:
                    swept["outs"].append(out)
                continue
            swept["fired"].append(abort.fired)
            if not (keep and keep[0] is abort.error) and not swept["lost"]:
                swept["lost"] = [abort.fired, out]
        return swept

    def do_new(self, i, op):
        kwargs = {k: O.val(v) for k, v in op["spec"]["kw"].items()}
        image = O.canon(kwargs)
        record = {"i": i, "base": {"spec": op["spec"]}}
        function = getattr(self.pkg, op["spec"]["fn"])
        value = self.observe(i, op, lambda: function(**kwargs), record)
        if O.canon(kwargs) != image:
            record["notes"].append("the call modified its arguments")
        self.repeat(op, lambda: function(**kwargs), record)
        if "slot" in op:
            self.live[op["slot"]] = value
            self.spec[op["slot"]] = op["spec"]
            self.touched.discard(op["slot"])
        WORLD.report(record)

    def do_get(self, i, op):
        obj = self.live.get(op["on"])
        if obj is None or not (O.is_dc(obj) or O.is_dds(obj)):
            WORLD.report({"i": i, "skipped": True})
            return
        spec = self.spec[op["on"]]
        if op["on"] in self.touched or spec is None:
            spec = O.data_of(obj)
        record = {"i": i, "base": {"spec": spec, "q": op["q"]}}
        if op.get("storage"):
            record["data"] = O.data_of(obj)
        if op.get("storage") and op.get("reset"):
            self.reset_file(op)
        if "cwd" in op:
            os.chdir(os.path.join(self.root, op["cwd"]))
        value = self.observe(i, op, lambda: O.query(self.pkg, obj, op["q"], self.root), record)
        self.repeat(op, lambda: O.query(self.pkg, obj, op["q"], self.root), record)
        if op.get("storage"):
            record["dest"] = O.read_file(os.path.join(self.root, op["q"]["path"]))
            if O.is_dds(obj) and record["out"][0] == "file":
                kw = {k: O.val(v) for k, v in op["q"]["kw"].items()}
                rates = (
                    kw.get("maximum_rabi_rate", 2 * np.pi),
                    kw.get("maximum_detuning_rate", 2 * np.pi),
                )
                key = json.dumps([record["data"], op["q"]["kw"]], sort_keys=True)
                if key not in self.equivalents:
                    out, control = guarded(
                        lambda: self.pkg.convert_dds_to_driven_control(obj, *rates, name=obj.name)
                    )
                    self.equivalents[key] = O.data_of(control) if control is not None else out
                record["equivalent"] = self.equivalents[key]
            if op.get("retry") and record["out"][0] == "exc":
                WORLD.disk.arm(True)
                out, _ = guarded(lambda: O.query(self.pkg, obj, op["q"], self.root))
                WORLD.disk.arm(False)
                record["retry"] = out
        if "slot" in op:
            self.live[op["slot"]] = value
            self.spec[op["slot"]] = None
            self.touched.add(op["slot"])
        WORLD.report(record)

    def reset_file(self, op):
        full = os.path.join(self.root, op["q"]["path"])
        if os.path.exists(full):
            os.unlink(full)
        if op["reset"] != "absent":
            place_files(self.root, {op["q"]["path"]: content_of(op["reset"])})

    def do_mutate(self, i, op):
        slot = op["slot"]
        value = self.live.get(slot)
        if value is None:
            WORLD.report({"i": i, "skipped": True})
            return
        before = self.others(slot)
        done = O.mutate(value, op["how"])
        self.touched.add(slot)
        WORLD.report(
            {
                "i": i,
                "mutated": done,
                "notes": self.changed(before, "changing %s in place" % slot) if done else [],
            }
        )

    def do_assign(self, i, op):
        """Reassigns attributes of an object."""
        obj = self.live.get(op["on"])
        if obj is not None:
            for key, value in op["set"].items():
                setattr(obj, key, O.val(value))
            self.touched.add(op["on"])
        WORLD.report({"i": i, "mutated": sorted(op["set"])})

    def do_update(self, i, op):
        """Changes stored arrays in place, keeping the object valid."""
        obj = self.live.get(op["on"])
        if obj is None:
            WORLD.report({"i": i, "skipped": True})
            return
        array = getattr(obj, op["field"])
        if array.size and array.flags.writeable and array.dtype.kind == "f":
            n = array.size
            act = op["act"]
            pos = op["pos"] % n
            if act == "scale":
                array *= op["v"]
            elif act == "element":
                array[pos] = array[pos] * op["v"]
            elif act == "swap":
                j = (pos + 1 + op["pos"] % max(1, n - 1)) % n
                array[[pos, j]] = array[[j, pos]]
            elif act == "reverse":
                array[...] = array[::-1].copy()
            elif act == "zero":
                array[pos] = 0.0
            elif act == "transfer":
                # keeps the sum
                j = (pos + 1) % n
                amount = array[pos] * 0.25
                array[pos] -= amount
                array[j] += amount
            self.touched.add(op["on"])
        WORLD.report({"i": i, "mutated": op["field"]})

    def do_drop(self, i, op):
        self.live.pop(op["slot"], None)
        if op.get("gc"):
            gc.collect()
        WORLD.report({"i": i})

    def do_ambient(self, i, op):
        apply_ambient(op["set"])
        WORLD.report({"i": i})


def watchdog(cap=2000000):
    """Turns an endless loop in the package into a verdict instead of a hang."""
    seen = [0]

    def local(frame, event, arg):
        seen[0] += 1
        if seen[0] > cap:
            sys.settrace(None)
            WORLD.give_up("does not finish: more than %d lines" % cap)
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(W.PKGDIR) else None

    return enter


def run_history(plan, root):
    """Returns (records, status); a hang is re-run under the watchdog."""
    records, status = in_child(lambda: History(plan, root).run(), root)
    if status == "timeout":
        watched = dict(plan, watchdog=True)
        records, status = in_child(lambda: History(watched, root).run(), root)
    return records, status


# ------------------------------------------------------------------- baselines


def baseline(items, root):
    """
    Outcome of each call alone: a fresh instance of the package per call.
    items: [{"spec":..., "q":... or missing, "count": count lines}].
    """

    keys = [json.dumps(item, sort_keys=True) for item in items]

    def body():
        for k, item in enumerate(items):
            if keys.index(keys[k]) < k:
                continue  # the same call again
            pkg = W.fresh_package()
            abort = W.AbortPlan(calls=item["count"] == "calls") if item.get("count") else None
            if "q" not in item:
                kwargs = {n: O.val(v) for n, v in item["spec"]["kw"].items()}
                function = getattr(pkg, item["spec"]["fn"])
                call = lambda: function(**kwargs)
            else:
                out, obj = guarded(lambda: O.build(pkg, item["spec"]))
                if obj is None:
                    WORLD.report({"k": k, "out": ["unbuildable", out]})
                    continue
                if item["q"]["k"] == "file":
                    full = os.path.join(root, item["q"]["path"])
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    if os.path.exists(full):
                        os.unlink(full)
                call = lambda: O.query(pkg, obj, item["q"], root)
            if abort is not None:
                sys.settrace(abort.tracer())
            out, _ = guarded(call)
            sys.settrace(None)
            record = {"k": k, "out": out, "lines": 0}
            if abort is not None:
                record["lines"], record["functions"] = abort.count, sorted(abort.functions.items())
            WORLD.report(record)

    records, status = in_child(body, root)
    if status in ("timeout", "starved"):
        return None
    known = {record["k"]: record for record in records}
    if status != 0 or len(known) != len(set(keys)):
        raise W.HarnessError("baseline ended with %r" % (status,))
    return [known[keys.index(key)] for key in keys]


def position(base, abort):
    """Where a call is to be aborted: anywhere, or in a function picked with equal chances."""
    if not abort.get("function") or not base.get("functions"):
        return int(abort["fraction"] * base.get("lines", 0))
    place = abort["fraction"] * len(base["functions"])
    positions = base["functions"][int(place)][1]
    return positions[int((place - int(place)) * len(positions))]


# --------------------------------------------------------------------- threads


class Threads:
    """Several simulated threads working on a shared pool of objects."""

    def __init__(self, plan, root):
        self.plan = plan
        self.root = root
        self.pkg = W.fresh_package()

    def run(self):
        plan = self.plan
        disk = WORLD.disk
        place_files(self.root, {p: content_of(c) for p, c in plan.get("files", {}).items()})
        for path in plan.get("dirs", []):
            os.makedirs(os.path.join(self.root, path), exist_ok=True)
        if "ambient" in plan:
            apply_ambient(plan["ambient"])
        pool = []
        for spec in plan["objs"]:
            _, value = guarded(lambda: O.build(self.pkg, spec))
            pool.append(value)
        life.prelude(plan, self.pkg, self.root)
        images = [O.canon(v) if v is not None else None for v in pool]
        # stored arrays may be shared with arguments, but only if the caller says so
        results = {}
        aborted = []
        seen = []
        sched = None

        def body(t, calls):
            def work():
                for k, op in enumerate(calls):
                    call = self.call_of(op, pool, t, k)
                    if call is None:
                        continue
                    abort = None
                    if "abort" in op:
                        how = op["abort"]
                        error = ABORTS[how["error"]]("simulated abort")
                        abort = W.AbortPlan(how["at"], error, how.get("calls", False))
                        sched.current.abort = abort
                    out, _ = self.traced(call)
                    sched.current.abort = None
                    results[(t, k)] = out
                    if abort is not None:
                        aborted.append([t, k, abort.fired, self.last is abort.error])

            return work

        bodies = [body(t, calls) for t, calls in enumerate(plan["threads"])]
        sched = W.Scheduler(WORLD, plan["schedule"], bodies)
        outer = WORLD.sched
        WORLD.sched = sched
        WORLD.tracer = W.opcode_tracer(sched, plan.get("opcodes", True))
        faults = [disk.add_fault(f) for f in plan.get("faults", [])]
        sched.owners = {i: f["owner"] for i, f in zip(faults, plan.get("faults", [])) if f["kind"] == "hang"}
        fds = descriptors()
        if plan.get("gc"):
            gc.enable()
        snap = ambient(self.pkg)
        if plan.get("watch"):
            sched.watch = self.watcher(snap, seen, plan["watch"])
        disk.arm(True)
        sched.run()
        disk.arm(False)
        fired = [disk.fired(f) for f in faults]
        seen.sort()
        WORLD.sched = outer
        WORLD.switches = sched.switches
        notes = []
        for k, op in enumerate(plan.get("after", [])):
            call = self.call_of(op, pool, -1, k)
            if call is not None:
                disk.clear_faults()
                disk.arm(True)
                sys.settrace(watchdog())
                results[(-1, k)], _ = guarded(call)
                sys.settrace(None)
                disk.arm(False)
        if disk.outside():
            outside = [n for n in disk.log().split("\n") if n.startswith("OUTSIDE")][:4]
            notes.append("touched other files: %s" % outside)
        for i, (value, image) in enumerate(zip(pool, images)):
            if value is not None and O.canon(value) != image:
                notes.append(
                    "object %d changed from %s to %s"
                    % (i, O.short(image, 200), O.short(O.canon(value), 200))
                )
        alive = descriptors() - fds
        made = [op for calls in plan["threads"] for outer in calls for op in outer.get("fork", [outer])]
        allowed = {op["q"]["path"] for op in made if op.get("q", {}).get("k") == "file"}
        extra = [
            p for p in tree(self.root) if not p.endswith("/") and p not in allowed and p not in plan.get("files", {})
        ]
        for (t, k), out in sorted(results.items()):
            WORLD.report({"t": t, "k": k, "out": out})
        WORLD.report(
            {
                "done": True,
                "notes": notes,
                "leaked": len(alive),
                "extra": extra,
                "ambient": ambient_diff(snap, ambient(self.pkg)),
                "aborted": aborted,
                "seen": seen,
                "watched": getattr(self, "watched", 0),
                "fired": fired,
                "steps": sched.steps,
                "switches": sched.switches,
                "trail": digest(sched.trail),
                "files": {
                    p: O.read_file(os.path.join(self.root, p)) for p in sorted(allowed)
                }
                if plan.get("want_files")
                else {},
                "events": [t.events for t in sched.tasks],
                "log": disk.log().split("\n")[:-1][:60],
            }
        )

    def call_of(self, op, pool, t, k):
        if "on" in op:
            obj = pool[op["on"]]
            return None if obj is None else lambda: O.query(self.pkg, obj, op["q"], self.root)
        kwargs = {n: O.val(v) for n, v in op["spec"]["kw"].items()}
        function = getattr(self.pkg, op["spec"]["fn"])
        return lambda: function(**kwargs)

    def watcher(self, snap, seen, share):
        """What another thread that looks at this moment would see of the process-wide state."""
        rng = random.Random(0)
        positions = set()
        self.watched = 0
        outside = {k: v for k, v in snap.items() if k not in OF_THE_THREAD}

        def watch(where):
            if rng.random() < (0.005 if where in positions else share):
                positions.add(where)
                self.watched += 1
                changes = ambient_diff(outside, ambient(self.pkg, rng.random() < 0.1))
                if rng.random() < 0.15:
                    changes.extend(changed_attributes(outside["attributes"], attributes()))
                for change in changes:
                    if change not in seen:
                        seen.append(change)

        return watch

    def traced(self, call):
        self.last = None
        try:
            value = call()
        except BaseException as error:
            self.last = error
            image = O.canon(error)
            WORLD.trace_on()
            return image, None
        # looking at the result must not be scheduled as part of the call
        sys.settrace(None)
        image = O.canon(value)
        WORLD.trace_on()
        return image, value


def run_threads(plan, root):
    return in_child(lambda: Threads(plan, root).run(), root)


from . import life  # noqa: E402  (uses this module)
