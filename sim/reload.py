"""
Reloading, unloading and second copies of the package while its objects are in use (C21).
Same interface as props.py.
"""
import copy
import importlib
import os
import sys
import types

from . import imports as I
from . import ops as O
from . import props as P
from . import runs as R
from . import world as W
from .launch import submodules
from .world import WORLD


class C21(P.Property):
    ident = "C21"

    counts = None

    def load(self, gen):
        """One way to load the package, or modules of it, again."""
        names = submodules() + [W.PKG]
        how = gen.pick(["reload", "reload", "reload", "unload", "second", "away"])
        step = {"do": "load", "how": how}
        if how == "reload":
            roll = gen.rng.random()
            if roll < 0.35:
                gen.rng.shuffle(names)
                step["modules"] = names[: gen.rng.randrange(1, 4)]
            elif roll < 0.5:
                step["modules"] = [W.PKG]
            else:
                # all, in the order in which they depend on each other, backwards, or at random
                step["modules"] = names
                order = gen.pick(["depend", "depend", "back", "random"])
                if order == "back":
                    names.reverse()
                elif order == "random":
                    gen.rng.shuffle(names)
                else:
                    step["modules"] = None
        if how != "away" and gen.chance(0.3):
            step["fault"] = I.C19().fault(gen)
        return step

    def generate(self, gen):
        steps, specs = [], {}
        kind, _, similar = P.in_turn(gen, gen.index) if gen.index % 2 else (None, None, [])

        def some(count):
            for _ in range(count):
                if not specs or gen.chance(0.45):
                    spec = gen.creation()
                    if kind == "new" and gen.chance(0.6):
                        spec = gen.pick(similar)["spec"]
                    elif gen.chance(0.12):
                        spec = gen.bad_creation()
                    slot = "s%d" % len(steps)
                    steps.append({"do": "new", "slot": slot, "spec": spec, "via": gen.rng.random()})
                    specs[slot] = spec
                elif gen.chance(0.12):
                    slot, on = "s%d" % len(steps), gen.pick(sorted(specs))
                    steps.append({"do": "copy", "slot": slot, "on": on, "deep": gen.chance(0.5)})
                    specs[slot] = specs[on]
                else:
                    on = gen.pick(sorted(specs))
                    path = "d/f%d.out" % gen.pick([0, 0, len(steps)])
                    steps.append({"do": "get", "on": on, "q": gen.call(specs[on], path)})

        some(gen.rng.randrange(1, 5))
        for _ in range(gen.pick([1, 1, 2, 3, 5])):
            steps.append(self.load(gen))
            some(gen.rng.randrange(0, 4))
        # everything that was made is asked something in the end
        some(2)
        for on in sorted(specs):
            steps.append({"do": "get", "on": on, "q": gen.call(specs[on], "d/last")})
            if gen.chance(0.5):
                steps.append({"do": "get", "on": on, "q": {"k": gen.pick(["str", "repr"])}})
        return {"steps": steps}

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan, "loads": 0}
        if C21.counts is None:
            C21.counts = {}
            for kind in ("lines", "calls", "statements"):
                records, _ = R.in_child(lambda: I.count(kind), root)
                C21.counts.update(records[0])
        specs, items, where = {}, [], {}
        for i, step in enumerate(plan["steps"]):
            if step["do"] == "new":
                specs[step["slot"]] = step["spec"]
                where[i] = len(items)
                items.append({"spec": step["spec"]})
            elif step["do"] == "copy" and step["on"] in specs:
                specs[step["slot"]] = specs[step["on"]]
            elif step["do"] == "get" and step["on"] in specs:
                where[i] = len(items)
                items.append({"spec": specs[step["on"]], "q": step["q"]})
        alone = R.baseline(items, root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        records, status = R.in_child(lambda: Process(plan, root, C21.counts).run(), root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        trail = []
        for record in records:
            if "done" in record:
                result["violations"].extend(record["notes"])
                continue
            if "i" not in record:
                continue
            step = plan["steps"][record["i"]]
            text = "step %d (%s)" % (record["i"], self.text(step))
            if step["do"] == "load":
                result["loads"] += 1
                if record["fired"]:
                    name = "import: %s %s" % (step["fault"]["kind"], step["fault"]["error"])
                    result["faults"][name] = result["faults"].get(name, 0) + 1
                trail.append([step["how"], step.get("modules"), record["fired"]])
            elif "out" in record:
                result["calls"] += 1
                P.compare(result, text, record["out"], alone[where[record["i"]]]["out"])
                trail.append(step["spec"]["fn"] if "spec" in step else [step["q"]["k"], record["age"]])
            for note in record["notes"]:
                result["violations"].append("%s: %s" % (text, note))
        if result["loads"]:
            result["sig"].append(P.sha(trail))
        return result

    def text(self, step):
        if step["do"] == "load":
            return "%s %s" % (step["how"], "all" if step.get("modules") is None else step["modules"])
        return step["do"] if step["do"] == "copy" else P.describe(step)

    def shrink_candidates(self, plan):
        steps = plan["steps"]
        size = (len(steps) + 1) // 2
        while size >= 1:
            for start in range(0, len(steps), size):
                yield dict(plan, steps=steps[:start] + steps[start + size :])
            size //= 2
        for i, step in enumerate(steps):
            if step.get("fault"):
                yield dict(plan, steps=steps[:i] + [{k: v for k, v in step.items() if k != "fault"}] + steps[i + 1 :])
            for m in range(len(step.get("modules") or [])):
                if len(step["modules"]) > 1:
                    fewer = step["modules"][:m] + step["modules"][m + 1 :]
                    yield dict(plan, steps=steps[:i] + [dict(step, modules=fewer)] + steps[i + 1 :])


def loaded():
    return {name: module for name, module in sys.modules.items() if name == W.PKG or name.startswith(W.PKG + ".")}


class Process:
    def __init__(self, plan, root, counts):
        self.plan, self.root, self.counts = plan, root, counts
        self.offers = []  # what the package offered after each time it was loaded
        self.live = {}  # slot -> object
        self.of = {}  # slot -> number of the loading it comes from

    def offer(self):
        package = sys.modules[W.PKG]
        self.offers.append(types.SimpleNamespace(**{k: v for k, v in vars(package).items() if not k.startswith("__")}))

    def images(self):
        return {slot: O.canon(value) for slot, value in self.live.items()}

    def load(self, step):
        if step["how"] == "reload":
            modules = step.get("modules")
            if modules is None:
                modules = self.order
            # the package first: see C19
            importlib.import_module(W.PKG)
            for name in modules:
                if name not in sys.modules:
                    importlib.import_module(name)
                importlib.reload(sys.modules[name])
        else:
            W.forget_package()
            if step["how"] != "away":
                importlib.import_module(W.PKG)

    def do_load(self, i, step):
        record = {"i": i, "fired": False, "notes": []}
        before, snap = self.images(), R.ambient(None)
        first = loaded()
        fault = step.get("fault")
        if fault:
            how, error = I.Process.prepare(self, fault)
            keep = []
            if isinstance(how, W.AbortPlan):
                sys.settrace(how.tracer())
            else:
                self.statements.arm(*how)
            try:
                self.load(step)
            except BaseException as raised:
                keep.append(raised)
            sys.settrace(None)
            record["fired"] = bool(how.fired if isinstance(how, W.AbortPlan) else self.statements.disarm())
            if isinstance(how, W.AbortPlan) and how.fired and not (keep and keep[0] is error):
                record["notes"].append("did not pass on %s raised at %s" % (fault["error"], how.fired))
            if keep and not record["fired"]:
                record["notes"].append("failed with %r" % (keep[0],))
        if not fault or record["fired"]:
            try:
                self.load(step)
            except BaseException as raised:
                record["notes"].append("failed with %r" % (raised,))
        if W.PKG in sys.modules:
            self.offer()
        elif step["how"] != "away":
            record["notes"].append("left no package")
        if step["how"] == "second":
            # both copies exist; the first one is the one that imports find
            W.forget_package()
            sys.modules.update(first)
        record["notes"].extend("changed " + c for c in R.ambient_diff(snap, R.ambient(None)))
        self.compare(before, record)
        WORLD.report(record)

    def compare(self, before, record):
        after = self.images()
        for slot in sorted(before):
            if after[slot] != before[slot]:
                record["notes"].append("changed an object: %s became %s" % (O.short(before[slot], 160), O.short(after[slot], 160)))

    def do_call(self, i, step):
        record = {"i": i, "notes": [], "age": 0}
        if step["do"] == "new":
            number = int(step["via"] * len(self.offers))
            call = lambda: O.build(self.offers[number], step["spec"])
        else:
            value = self.live.get(step["on"])
            if value is None:
                return
            number = self.of[step["on"]]
            record["age"] = len(self.offers) - 1 - number
            if step["do"] == "copy":
                call = lambda: (copy.deepcopy if step["deep"] else copy.copy)(value)
            else:
                call = lambda: O.query(self.offers[number], value, step["q"], self.root)
        before = self.images()
        WORLD.disk.arm(True)
        out, value = R.guarded(call)
        WORLD.disk.arm(False)
        if "slot" in step and value is not None:
            self.live[step["slot"]], self.of[step["slot"]] = value, number
        if step["do"] == "copy":
            if out != before[step["on"]]:
                record["notes"].append("the copy is %s instead of %s" % (O.short(out, 160), O.short(before[step["on"]], 160)))
        else:
            record["out"] = out
        self.compare(before, record)
        WORLD.report(record)

    def run(self):
        os.makedirs(os.path.join(self.root, "d"))
        W.forget_package()
        start = set(sys.modules)
        importlib.import_module(W.PKG)
        # modules are listed as they are completed, so the first ones depend on no others
        self.order = [n for n in sys.modules if n not in start and n.startswith(W.PKG)]
        self.statements = I.Statements()
        self.statements.install()
        self.offer()
        fds = R.descriptors()
        for i, step in enumerate(self.plan["steps"]):
            (self.do_load if step["do"] == "load" else self.do_call)(i, step)
        done = {"done": True, "notes": []}
        if WORLD.disk.outside():
            lines = [n for n in WORLD.disk.log().split("\n") if n.startswith("OUTSIDE")][:4]
            done["notes"].append("touched other files: %s" % lines)
        if R.descriptors() - fds:
            done["notes"].append("left files open")
        WORLD.report(done)


ALL = {"C21": C21}
