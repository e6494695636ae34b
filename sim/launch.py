"""
A process started under conditions of its own (C18).  The simulator prepares descriptors,
directory, limits, signals, environment and interpreter options, then executes

    launch.py PLANFILE ROOT REPORT-DESCRIPTOR
"""
import importlib
import json
import os
import random
import resource
import signal
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import ops as O  # noqa: E402
from sim import runs as R  # noqa: E402
from sim import world as W  # noqa: E402
from sim.world import WORLD  # noqa: E402


def submodules():
    """Names of all modules of the package."""
    names = []
    for base, dirs, files in os.walk(W.PKGDIR):
        dirs.sort()
        for name in sorted(files):
            if name.endswith(".py") and name != "__init__.py":
                path = os.path.relpath(os.path.join(base, name[:-3]), W.PKGDIR)
                names.append(W.PKG + "." + path.replace(os.sep, "."))
    return names


def load(how):
    """Imports the package the way the plan says."""
    rng = random.Random(how.get("seed", 0))
    names = submodules()
    rng.shuffle(names)
    for name in names[: int(how.get("share", 0.0) * len(names) + 0.5)]:
        importlib.import_module(name)
    if how.get("star"):
        namespace = {}
        exec("from %s import *" % W.PKG, namespace)
    return importlib.import_module(W.PKG)


def elsewhere(site, work):
    """Has the work done at a certain place of the process."""
    if site == "thread":
        thread = threading.Thread(target=work)
        thread.start()
        thread.join()
    elif site == "loop":
        import asyncio

        async def task():
            work()

        asyncio.run(task())
    elif site == "signal":
        done = []

        def handler(*_):
            work()
            done.append(True)

        signal.signal(signal.SIGUSR1, handler)
        os.kill(os.getpid(), signal.SIGUSR1)
        while not done:
            pass
    elif site == "fork":
        pid = os.fork()
        if pid == 0:
            status = 3
            try:
                W.die_with_parent()
                work()
                status = 0
            finally:
                os._exit(status)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass  # its end is being ignored
    elif site == "deep":

        def down(levels):
            return down(levels - 1) if levels else work()

        down(150)
    elif site == "exec":
        exec("work()", {"work": work})
    else:
        work()


def main():
    with open(sys.argv[1]) as handle:
        plan = json.load(handle)
    root, descriptor = sys.argv[2], int(sys.argv[3])

    def report(record):
        data = (json.dumps(record) + "\n").encode()
        while data:
            data = data[os.write(descriptor, data) :]

    WORLD.report = report
    try:
        W.REPO in sys.path or sys.path.insert(1, W.REPO)
        disk = WORLD.disk = W.Disk()
        start = plan["start"]
        for name in ("LD_PRELOAD", "SIM_SHIM"):
            del os.environ[name]
        W.install()
        if start.get("gc"):
            import gc

            gc.enable()
        disk.reset(root)
        WORLD.sched = W.Scheduler(WORLD, {"kind": "serial"}, [main]).adopt()
        if start.get("main"):
            del sys.modules["__main__"].__file__
            sys.argv = [""]
        if start.get("fds"):
            most = max(int(n) for n in os.listdir("/proc/self/fd"))
            resource.setrlimit(resource.RLIMIT_NOFILE, (most + start["fds"], most + 100))
        if start.get("trace"):
            (sys.setprofile if start["trace"] == "profile" else sys.settrace)(lambda *_: None)
        live = Calls(plan, root, disk)
        if start.get("early"):
            live.load()
        if start.get("site") == "exit":
            import atexit

            atexit.register(lambda: (checked(report, live.run), os._exit(0)))
            return
        elsewhere(start.get("site"), lambda: checked(report, live.run))
    except BaseException:
        import traceback

        report({"harness": traceback.format_exc()})
    os._exit(0)


def checked(report, work):
    try:
        work()
        report({"done": True})
    except BaseException:
        import traceback

        report({"harness": traceback.format_exc()})


class Calls:
    def __init__(self, plan, root, disk):
        self.plan, self.root, self.disk = plan, root, disk
        self.pkg = None

    def armed(self, call):
        """Outcome and value of a call during which other files are out of reach."""
        outside = self.disk.outside()
        self.disk.log_clear()
        self.disk.arm(True)
        out, value = R.guarded(call)
        self.disk.arm(False)
        notes = []
        if self.disk.outside() != outside:
            lines = [n for n in self.disk.log().split("\n") if n.startswith("OUTSIDE")][:4]
            notes.append("touched other files: %s" % lines)
        return out, value, notes

    def load(self):
        keep = []
        out, _, notes = self.armed(lambda: keep.append(load(self.plan["start"].get("import", {}))))
        WORLD.report({"import": out, "notes": notes})
        if keep:
            self.pkg = keep[0]
            WORLD.report({"names": sorted(n for n in vars(self.pkg) if not n.startswith("_"))})

    def run(self):
        if not self.plan["start"].get("early"):
            self.load()
        if self.pkg is None:
            return
        pkg, objs = self.pkg, {}
        for k, op in enumerate(self.plan["ops"]):
            if "q" not in op:
                out, _, notes = self.armed(lambda: O.build(pkg, op["spec"]))
            else:
                if op["on"] not in objs:
                    objs[op["on"]] = R.guarded(lambda: O.build(pkg, self.plan["objs"][op["on"]]))[1]
                obj = objs[op["on"]]
                if obj is None:
                    continue
                self.disk.clear_faults()
                faults = [self.disk.add_fault(f) for f in op.get("faults", [])]
                before = R.descriptors()
                out, _, notes = self.armed(lambda: O.query(pkg, obj, op["q"], self.root))
                if R.descriptors() - before:
                    notes.append("left files open")
                if any(self.disk.fired(f) for f in faults):
                    WORLD.report({"fired": k})
            WORLD.report({"k": k, "out": out, "notes": notes})


if __name__ == "__main__":
    main()
