"""
Imports that fail, are interrupted, repeated or made by several threads (C19).  Same
interface as props.py.
"""
import builtins
import errno
import importlib
import os
import sys
import types
import _thread

from . import ops as O
from . import props as P
from . import runs as R
from . import world as W
from .launch import submodules
from .world import WORLD

# what an import statement may fail with besides the aborts
FAILURES = {
    "ImportError": lambda: ImportError("simulated failure"),
    "OSError": lambda: OSError(errno.EMFILE, "simulated failure"),
    "MemoryError": lambda: MemoryError("simulated failure"),
}
TYPES = ("DrivenControl", "DynamicDecouplingSequence")


def fetch(what):
    """One import; what: package, star, from, or the name of a module; or its undoing."""
    if what == "unload":
        W.forget_package()
    elif what == "star":
        exec("from %s import *" % W.PKG, {})
    elif what == "from":
        exec("from %s import DrivenControl, new_uhrig_sequence, convert_dds_to_driven_control" % W.PKG, {})
    elif what == "package":
        __import__(W.PKG)
    else:
        importlib.import_module(what)


class Statements:
    """Import statements of the package (and files of modules it reads), one of which fails."""

    def __init__(self):
        self.count = {"statement": 0, "read": 0}
        self.plan = None
        self.fired = False
        self.original = builtins.__import__

    def install(self):
        def statement(name, globals=None, locals=None, fromlist=(), level=0):
            if globals and str(globals.get("__name__", "")).startswith(W.PKG):
                self.consider("statement")
            return self.original(name, globals, locals, fromlist, level)

        builtins.__import__ = statement
        W.before_code = lambda: self.consider("read")

    def consider(self, kind):
        self.count[kind] += 1
        plan = self.plan
        if plan and plan[0] == kind and not self.fired and self.count[kind] > plan[1]:
            self.fired = True
            raise plan[2]

    def arm(self, kind, at, error):
        self.plan = (kind, self.count[kind] + at, error)
        self.fired = False

    def disarm(self):
        self.plan = None
        return self.fired


class C19(P.Property):
    ident = "C19"

    counts = None

    def fault(self, gen):
        fraction = gen.rng.random() ** gen.pick([1, 2])
        roll = gen.rng.random()
        if roll < 0.5:
            return {"kind": "abort", "error": gen.pick(sorted(R.ABORTS)), "fraction": fraction, "calls": gen.chance(0.3)}
        kind = "statement" if roll < 0.8 else "read"
        return {"kind": kind, "error": gen.pick(sorted(FAILURES)), "fraction": fraction}

    def generate(self, gen):
        names = submodules()
        objs = [gen.creation() for _ in range(2)]
        ops = []
        for n in range(gen.rng.randrange(3, 8)):
            if gen.chance(0.5):
                ops.append({"spec": gen.bad_creation() if gen.chance(0.25) else gen.creation()})
            else:
                on = gen.rng.randrange(len(objs))
                ops.append({"on": on, "q": gen.call(objs[on], "d/f%d.out" % n)})
        steps = []
        for _ in range(gen.pick([0, 1, 1, 2, 3, 4])):
            what = gen.pick(["package", "package", "star", "from", "unload"] + names)
            steps.append({"what": what, "fault": self.fault(gen) if gen.chance(0.85) else None})
        plan = {"objs": objs, "ops": ops, "steps": steps}
        if not steps or gen.chance(0.4):
            threads = []
            for _ in range(gen.pick([2, 2, 3])):
                what = gen.pick(["package", "package", "star", "from"])
                calls = [gen.rng.randrange(len(ops)) for _ in range(gen.pick([0, 1, 1, 2]))]
                fault = self.fault(gen) if gen.chance(0.4) else None
                threads.append({"what": what, "fault": fault, "calls": calls})
            plan["threads"] = threads
            plan["schedule"] = P.schedule(gen)
            plan["opcodes"] = gen.chance(0.7)
        return plan

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan, "imports": 0}
        if C19.counts is None:
            C19.counts = {}
            for kind in ("lines", "calls", "statements"):
                records, _ = R.in_child(lambda: count(kind), root)
                C19.counts.update(records[0])
        alone, _ = R.in_child(lambda: Process(plan, root, C19.counts).undisturbed(), root)
        records, status = R.in_child(lambda: Process(plan, root, C19.counts).run(), root)
        stuck = self.stuck(records, status)
        switches = next((r["switches"] for r in records if "switches" in r), None)
        if switches is not None:
            result["plan"] = dict(plan, schedule={"kind": "explicit", "switches": switches})
        if stuck:
            result["violations"].append(stuck)
            return result
        expected = {r["k"]: r["out"] for r in alone if "k" in r}
        names = next(r["names"] for r in alone if "names" in r)
        trail = []
        for record in records:
            if "what" in record:
                result["imports"] += 1
                if record["fired"]:
                    kind = "import: " + record["fired"]
                    result["faults"][kind] = result["faults"].get(kind, 0) + 1
                for note in record["notes"]:
                    result["violations"].append("import %s (%s): %s" % (record["i"], record["what"], note))
                trail.append([record["what"], record["fired"], record["place"], record["out"][:2]])
            elif "names" in record:
                missing = sorted(set(names) - set(record["names"]))
                if missing:
                    result["violations"].append("the package lacks %s" % missing[:5])
            elif "k" in record:
                result["calls"] += 1
                op = plan["ops"][record["k"]]
                text = "call %d (%s) %s" % (record["k"], P.describe(dict(op, do="get" if "q" in op else "new")), record["where"])
                P.compare(result, text, record["out"], expected[record["k"]])
                for note in record["notes"]:
                    result["violations"].append("%s: %s" % (text, note))
            elif "done" in record:
                for note in record["notes"]:
                    result["violations"].append(note)
                if "trail" in record:
                    result["trail"] = record["trail"]
                    trail.append(record["trail"])
        result["sig"].append(P.sha(trail))
        return result

    def shrink_candidates(self, plan):
        yield from super().shrink_candidates(dict(plan, ops=[]))
        for i in range(len(plan["steps"])):
            yield dict(plan, steps=plan["steps"][:i] + plan["steps"][i + 1 :])
        for i, step in enumerate(plan["steps"]):
            if step["what"] != "package":
                yield dict(plan, steps=plan["steps"][:i] + [dict(step, what="package")] + plan["steps"][i + 1 :])
        threads = plan.get("threads", [])
        if threads and plan["steps"]:
            yield {k: v for k, v in plan.items() if k not in ("threads", "schedule", "opcodes")}
        for t in range(len(threads)):
            if len(threads) > 2:
                yield dict(plan, threads=threads[:t] + threads[t + 1 :])
            for change in ({"fault": None}, {"calls": []}, {"what": "package"}):
                if any(threads[t][k] != v for k, v in change.items()):
                    yield dict(plan, threads=threads[:t] + [dict(threads[t], **change)] + threads[t + 1 :])
        if threads and plan["schedule"]["kind"] == "explicit":
            switches = plan["schedule"]["switches"]
            size = len(switches)
            while size >= 1:
                for start in range(0, len(switches), size):
                    rest = switches[:start] + switches[start + size :]
                    yield dict(plan, schedule=dict(plan["schedule"], switches=rest))
                size //= 2
        used = {k for t in threads for k in t["calls"]}
        if len(plan["ops"]) > 1 and len(plan["ops"]) - 1 not in used:
            yield dict(plan, ops=plan["ops"][:-1])


def count(kind):
    """How many lines, operations, import statements and files an import takes."""
    statements = Statements()
    abort = W.AbortPlan(calls=kind == "calls")
    if kind == "statements":
        statements.install()
    else:
        sys.settrace(abort.tracer())
    __import__(W.PKG)
    sys.settrace(None)
    WORLD.report(statements.count if kind == "statements" else {kind: abort.count})


class Process:
    def __init__(self, plan, root, counts):
        self.plan, self.root, self.counts = plan, root, counts
        self.objs = {}
        self.failed = False

    def package(self):
        return sys.modules[W.PKG]

    def undisturbed(self):
        W.forget_package()
        __import__(W.PKG)
        os.makedirs(os.path.join(self.root, "d"))
        self.finish()

    def finish(self):
        """What the package offers in the end."""
        # a module left by a failed import does not become an attribute of the package again
        offered = vars(self.package()).items()
        WORLD.report({"names": sorted(n for n, v in offered if not n.startswith("_") and not isinstance(v, types.ModuleType))})
        for k in range(len(self.plan["ops"])):
            self.call(k, "afterwards")

    def outcome(self, k):
        """One of the calls of the plan; returns canonical outcome and notes."""
        op = self.plan["ops"][k]
        pkg = self.package()
        notes = []
        if "q" in op:
            if op["on"] not in self.objs:
                self.objs[op["on"]] = R.guarded(lambda: O.build(pkg, self.plan["objs"][op["on"]]))[1]
            if self.objs[op["on"]] is None:
                return ["unbuildable"], notes
            call = lambda: O.query(pkg, self.objs[op["on"]], op["q"], self.root)
        else:
            call = lambda: O.build(pkg, op["spec"])
        keep = []
        value = None
        try:
            value = call()
        except BaseException as error:
            keep.append(error)
        sys.settrace(None)
        out = O.canon(keep[0] if keep else value)
        name = type(keep[0] if keep else value).__name__
        if name in TYPES and type(value) is not getattr(pkg, name, None):
            notes.append("the result is not an instance of the %s of the package" % name)
        if name == "ArgumentsValueError":
            if type(keep[0]) is not importlib.import_module(W.PKG + ".exceptions").ArgumentsValueError:
                notes.append("the exception is not the one of the package")
        return out, notes

    def call(self, k, where):
        WORLD.disk.arm(True)
        out, notes = self.outcome(k)
        WORLD.disk.arm(False)
        WORLD.report({"k": k, "out": out, "notes": notes, "where": where})

    def prepare(self, fault):
        """(abort, error) for a planned fault of an import."""
        at = int(fault["fraction"] * self.counts[("calls" if fault.get("calls") else "lines") if fault["kind"] == "abort" else fault["kind"]])
        if fault["kind"] == "abort":
            error = R.ABORTS[fault["error"]]("simulated abort")
            return W.AbortPlan(at, error, fault["calls"]), error
        error = FAILURES[fault["error"]]()
        return (fault["kind"], at, error), error

    def describe(self, i, step, keep, fired, place, error):
        record = {"i": i, "what": step["what"], "fired": None, "place": place, "notes": [], "out": O.canon(keep[0]) if keep else ["ok"]}
        if fired:
            record["fired"] = step["fault"]["kind"] + " " + step["fault"]["error"]
        if keep and not fired:
            record["notes"].append("failed with %s (%s)" % (O.short(record["out"], 300), keep[0]))
        if fired and step["fault"]["kind"] == "abort" and not (keep and keep[0] is error):
            record["notes"].append("did not pass on %s raised at %s" % (step["fault"]["error"], place))
        return record

    def step(self, i, step):
        if self.failed and W.PKG not in sys.modules and "." in step["what"]:
            # the runtime keeps the modules that were complete, and does not start anew with
            # the package if one of them is asked for
            step = dict(step, what="package")
        fault = step.get("fault")
        keep = []
        how, error = self.prepare(fault) if fault else (None, None)
        if isinstance(how, W.AbortPlan):
            sys.settrace(how.tracer())
        elif how:
            self.statements.arm(*how)
        WORLD.disk.arm(True)
        try:
            fetch(step["what"])
        except BaseException as raised:
            keep.append(raised)
        sys.settrace(None)
        WORLD.disk.arm(False)
        fired = how.fired if isinstance(how, W.AbortPlan) else how and self.statements.disarm()
        self.failed = self.failed or bool(keep)
        WORLD.report(self.describe(i, step, keep, bool(fired), fired if isinstance(fired, str) else "", error))

    def run(self):
        plan = self.plan
        os.makedirs(os.path.join(self.root, "d"))
        W.forget_package()
        bootstrap = sys.modules["_frozen_importlib"]
        bootstrap._thread = types.SimpleNamespace(allocate_lock=W.SimLock, get_ident=_thread.get_ident, RLock=W.SimRLock)
        self.statements = Statements()
        self.statements.install()
        fds = R.descriptors()
        snap = R.ambient(None)
        for i, step in enumerate(plan["steps"]):
            self.step(str(i), step)
        done = {"done": True, "notes": []}
        if "threads" in plan:
            done.update(self.together())
        self.step("last", {"what": "package"})
        done["notes"].extend("the imports changed " + c for c in R.ambient_diff(snap, R.ambient(None)))
        if W.PKG in sys.modules:
            self.finish()
        if WORLD.disk.outside():
            lines = [n for n in WORLD.disk.log().split("\n") if n.startswith("OUTSIDE")][:4]
            done["notes"].append("touched other files: %s" % lines)
        if R.descriptors() - fds:
            done["notes"].append("left files open")
        WORLD.report(done)

    def together(self):
        """The threads of the plan."""
        plan = self.plan
        reports = []
        sched = None

        def body(t, thread):
            def work():
                keep = []
                fault = thread["fault"]
                how, error = self.prepare(fault) if fault else (None, None)
                mine = Statements()
                if isinstance(how, W.AbortPlan):
                    sched.current.abort = how
                elif how:
                    mine.arm(*how)
                    by_thread[_thread.get_ident()] = mine
                try:
                    fetch(thread["what"])
                except BaseException as raised:
                    keep.append(raised)
                sched.current.abort = None
                by_thread.pop(_thread.get_ident(), None)
                fired = how.fired if isinstance(how, W.AbortPlan) else how and mine.disarm()
                sys.settrace(None)
                reports.append(
                    self.describe("of thread %d" % t, thread, keep, bool(fired), fired if isinstance(fired, str) else "", error)
                )
                if keep:
                    return
                for k in thread["calls"]:
                    WORLD.trace_on()
                    out, notes = self.outcome(k)
                    reports.append({"k": k, "out": out, "notes": notes, "where": "in thread %d" % t})

            return work

        by_thread = {}
        consider = self.statements.consider

        def dispatch(kind):
            mine = by_thread.get(_thread.get_ident())
            if mine is not None:
                mine.consider(kind)

        self.statements.consider = dispatch
        bodies = [body(t, thread) for t, thread in enumerate(plan["threads"])]
        sched = W.Scheduler(WORLD, plan["schedule"], bodies)
        outer = WORLD.sched
        WORLD.sched = sched
        WORLD.tracer = W.opcode_tracer(sched, plan["opcodes"], modules=True)
        WORLD.disk.arm(True)
        sched.run()
        WORLD.disk.arm(False)
        WORLD.sched = outer
        self.statements.consider = consider
        for record in reports:
            WORLD.report(record)
        return {"switches": sched.switches, "trail": R.digest(sched.trail)}


ALL = {"C19": C19}
