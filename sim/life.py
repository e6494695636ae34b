"""
The earlier life of a process: many calls with ever different (or ever the same)
arguments, some of them rejected, aborted or failing on storage.
"""
import collections
import os
import random
import sys
import threading

from . import ops as O
from . import runs as R
from . import world as W
from .world import WORLD


class Life:
    """
    settings: seed, rejected, aborts, faults (shares of calls), calls (abort operations
    instead of lines), queries, files, paths (a new one for every export), focus (kind of
    query), threads (a new one for every call), same (share of calls that repeat the
    arguments of earlier ones), echo (share of calls that are those of the plan itself).
    """

    def __init__(self, pkg, root, settings, templates, directory="d", calls=()):
        self.pkg = pkg
        self.root = root
        self.settings = settings
        self.templates = templates
        self.directory = directory
        self.gen = O.Gen(random.Random(settings["seed"]))
        self.faults = collections.Counter()
        self.calls = 0
        self.plan_calls = list(calls)
        self.objects = {}
        self.lines = {}

    def spend(self, count):
        """Makes count creations, each followed by a query if wanted."""
        settings, g = self.settings, self.gen
        for _ in range(count):
            if self.plan_calls and g.chance(settings.get("echo", 0.0)):
                self.echo(g.rng.randrange(len(self.plan_calls)))
                continue
            spec = g.pick(self.templates)
            if not g.chance(settings.get("same", 0.0)):
                spec = g.vary(spec)
            if g.chance(settings["rejected"]):
                spec = g.bad_creation()
                if g.chance(0.5):
                    spec["kw"]["name"] = "n%d" % g.rng.randrange(1 << 40)
            obj = self.one(("new", spec["fn"]), lambda: O.build(self.pkg, spec))
            if obj is None or not settings["queries"]:
                continue
            path = g.pick(["%s/a.out", "%s/b.out"]) % self.directory
            if settings["paths"]:
                path = "%s/%d.out" % (self.directory, g.rng.randrange(1 << 40))
            for _ in range(30):
                q = g.call(spec, path, files=settings["files"])
                if settings["focus"] in (None, q["k"]):
                    break
            self.one((q["k"], q.get("p")), lambda: O.query(self.pkg, obj, q, self.root), q["k"] == "file")
            if settings["paths"] and os.path.exists(os.path.join(self.root, path)):
                os.unlink(os.path.join(self.root, path))

    def echo(self, k):
        """One of the calls of the plan."""
        spec, q = self.plan_calls[k]
        if q is None:
            self.one(("new", spec["fn"]), lambda: O.build(self.pkg, spec))
            return
        if k not in self.objects:
            self.objects[k] = R.guarded(lambda: O.build(self.pkg, spec))[1]
        if self.objects[k] is not None:
            if q["k"] == "file":
                q = {"k": "file", "path": "%s/a.out" % self.directory, "kw": q["kw"]}
            self.one((q["k"], q.get("p")), lambda: O.query(self.pkg, self.objects[k], q, self.root), q["k"] == "file")

    def one(self, key, call, storage=False):
        settings, g = self.settings, self.gen
        disk = WORLD.disk
        self.calls += 1
        abort = None
        if g.chance(settings["aborts"]):
            at = g.rng.randrange(max(1, self.lines.get(key, 30)))
            error = R.ABORTS[g.pick(sorted(R.ABORTS))]("simulated abort")
            abort = W.AbortPlan(at, error, settings.get("calls", False))
        armed = None
        if storage:
            disk.clear_faults()
            if g.chance(settings["faults"]):
                from . import props as P

                fault = g.pick(P.Faults(g).hard(interrupt=False))
                if fault.get("ordinal") and g.chance(0.7):
                    fault = dict(fault, ordinal=0)
                armed = disk.add_fault(fault)
        disk.log_clear()
        disk.arm(True)
        value = []

        def act():
            if abort is not None:
                sys.settrace(abort.tracer())
            try:
                value.append(call())
            except BaseException:
                pass
            sys.settrace(None)

        if settings.get("threads"):
            thread = threading.Thread(target=act)
            thread.start()
            thread.join()
        else:
            act()
        disk.arm(False)
        if armed is not None and disk.fired(armed):
            self.faults["storage " + fault["kind"]] += 1
        if abort is not None:
            self.lines[key] = max(self.lines.get(key, 0), abort.count)
            if abort.fired:
                self.faults["abort"] += 1
        return value[0] if value else None


# shares of (rejected, aborted, failing) calls that the statement of a property allows
# among the earlier calls
MIXES = {
    "C01": ((0.0, 0.0, 0.0), (0.3, 0.0, 0.0), (0.0, 0.0, 1.0), (0.1, 0.0, 0.4)),
    "C02": ((0.0, 0.0, 0.0), (0.6, 0.0, 0.0), (0.2, 0.0, 0.5)),
    "C03": ((0.0, 0.0, 0.0), (0.0, 0.0, 1.0)),
    "C05": ((0.0, 0.0, 0.0), (0.2, 0.0, 0.0)),
    "C06": ((0.0, 0.0, 0.0), (0.3, 0.0, 0.0), (1.0, 0.0, 0.0)),
    "C07": ((0.0, 1.0, 0.0), (0.0, 1.0, 0.0), (0.1, 0.7, 0.0)),
    "C08": ((0.0, 0.0, 0.0), (0.5, 0.0, 0.0), (0.1, 0.3, 0.3)),
    "C09": ((0.0, 0.0, 0.0), (0.2, 0.0, 0.0)),
    "C10": ((0.0, 0.0, 0.0), (0.0, 0.0, 0.6)),
    "C11": ((0.0, 0.0, 0.0), (0.2, 0.0, 0.0)),
    "C13": ((0.0, 0.0, 0.0), (0.2, 0.0, 0.0)),
    "C16": ((0.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.1, 0.5, 0.0)),
    "C17": ((0.0, 0.0, 0.0), (0.5, 0.0, 0.0), (0.1, 0.3, 0.3)),
}
SHARE = 0.03
SHARES = {"C05": 0.05, "C06": 0.06}


def add_prelude(ident, plan, gen):
    """Gives a small share of the plans a long life before the calls that are judged."""
    if "prelude" in plan or ident not in MIXES or not gen.chance(max(SHARE, SHARES.get(ident, 0.0))):
        return plan
    rejected, aborts, faults = gen.pick(MIXES[ident])
    storage = ident in ("C01", "C02", "C03", "C10")
    plan["prelude"] = {
        "seed": gen.rng.randrange(1 << 30),
        "count": gen.pick([40, 100, 150, 300, 300, 600]),
        "rejected": rejected,
        "aborts": aborts,
        "calls": gen.chance(0.3),
        "faults": faults,
        "queries": storage or gen.chance(0.6),
        "files": storage or gen.chance(0.5),
        "paths": gen.chance(0.5),
        "focus": "file" if storage else gen.pick([None, None, "prop", "export", "convert", "str"]),
        "same": gen.pick([0.0, 0.0, 0.5, 1.0]),
        "echo": gen.pick([0.0, 0.0, 0.3, 1.0]),
    }
    if gen.chance(0.5):
        plan["prelude"]["at"] = gen.rng.random()
    return plan


def specs_in(value):
    """Specifications of objects anywhere in a plan."""
    if isinstance(value, dict):
        if "fn" in value and "kw" in value:
            yield value
        else:
            for part in value.values():
                yield from specs_in(part)
    elif isinstance(value, list):
        for part in value:
            yield from specs_in(part)


def calls_in(plan):
    """The calls of a plan: (specification, query or None)."""
    ops = list(plan.get("ops", []))
    for thread in plan.get("threads", []):
        ops.extend(thread)
    for op in ops:
        if "q" in op and "on" in op:
            on = str(op["on"])
            on = on[1:] if on.startswith("o") else on
            if on.isdigit() and int(on) < len(plan.get("objs", [])):
                yield plan["objs"][int(on)], op["q"]
        elif "spec" in op:
            yield op["spec"], None


def prelude(plan, pkg, root):
    """Lives the life before the judged calls, if the plan has one; leaves no files of its own."""
    settings = plan.get("prelude")
    if not settings:
        return
    templates = list(specs_in({k: v for k, v in plan.items() if k != "prelude"}))
    directory = os.path.join(root, "prelude")
    os.makedirs(directory)
    Life(pkg, root, settings, templates, "prelude", calls_in(plan)).spend(settings["count"])
    WORLD.disk.clear_faults()
    WORLD.disk.log_clear()
    for name in os.listdir(directory):
        if name in ("a.out", "b.out"):
            os.unlink(os.path.join(directory, name))
    if not os.listdir(directory):
        os.rmdir(directory)


def shorter(plan):
    """Plans with a shorter life."""
    settings = plan.get("prelude")
    if settings:
        yield {k: v for k, v in plan.items() if k != "prelude"}
        for count in (settings["count"] // 2, settings["count"] * 3 // 4, settings["count"] - 1):
            if 0 < count < settings["count"]:
                yield dict(plan, prelude=dict(settings, count=count))
        for key in ("rejected", "aborts", "faults"):
            if settings[key]:
                yield dict(plan, prelude=dict(settings, **{key: 0.0}))
