"""
Properties about the process around the library: calls made in the middle of other calls
(C11), objects and errors travelling between processes that crash and restart (C12),
forks in the middle of other threads' calls (C13), and what is retained over a long life
(C14).  Same interface as props.py.
"""
import collections
import copy
import gc
import json
import os
import pickle
import random
import signal
import sys
import threading
import warnings

try:
    import pypyjit
except ImportError:
    pypyjit = None

from . import life as L
from . import ops as O
from . import props as P
from . import runs as R
from . import world as W
from .world import WORLD


def perform(pkg, op, objs, root):
    """The call of an operation as a function without arguments."""
    if "spec" in op:
        kwargs = {k: O.val(v) for k, v in op["spec"]["kw"].items()}
        function = getattr(pkg, op["spec"]["fn"])
        return lambda: function(**kwargs)
    obj = objs[op["on"]]
    return lambda: O.query(pkg, obj, op["q"], root)


def outcome(call):
    """Canonical outcome, without touching the trace function."""
    try:
        value = call()
    except BaseException as error:
        return O.canon(error)
    return O.canon(value)


def item(op, specs):
    if "spec" in op:
        return {"spec": op["spec"]}
    return {"spec": specs[op["on"]], "q": op["q"]}


def text_of(op):
    return P.describe(dict(op, do="new" if "spec" in op else "get"))


def brief(op):
    return op["spec"]["fn"] if "spec" in op else [op["q"]["k"], op["q"].get("p")]


def directories(ops):
    return sorted({os.path.dirname(op["q"]["path"]) for op in ops if op.get("q", {}).get("k") == "file"} - {""})


# ------------------------------------------------------------------------- C11


class Interruptions:
    """Runs other calls at chosen points of one call, as a signal handler would."""

    def __init__(self, points, opcodes):
        self.points = points
        self.opcodes = opcodes
        self.count = 0
        self.places = []

    def event(self, frame):
        call = self.points.get(self.count)
        self.count += 1
        if call is not None:
            name = frame.f_code.co_filename[len(W.PKGDIR) :]
            self.places.append("%s:%d:%d" % (name, frame.f_lineno, frame.f_lasti if self.opcodes else 0))
            call()

    def tracer(self):
        wanted = "opcode" if self.opcodes else "line"

        def handle(frame, event):
            if event == wanted or event == "return":
                self.event(frame)

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(W.PKGDIR):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.event(frame)
            return W.once(handle)

        return enter


def count_events(jobs, opcodes, root):
    """Interruptible points of each call alone, and its outcome."""

    def body():
        for k, job in enumerate(jobs):
            pkg = W.fresh_package()
            objs = {}
            if "q" in job:
                out, obj = R.guarded(lambda: O.build(pkg, job["spec"]))
                if obj is None:
                    WORLD.report({"k": k, "out": ["unbuildable", out], "events": 0})
                    continue
                objs[0] = obj
                op = {"on": 0, "q": job["q"]}
                if job["q"]["k"] == "file":
                    full = os.path.join(root, job["q"]["path"])
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    if os.path.exists(full):
                        os.unlink(full)
            else:
                op = job
            call = perform(pkg, op, objs, root)
            spy = Interruptions({}, opcodes)
            sys.settrace(spy.tracer())
            out = outcome(call)
            sys.settrace(None)
            WORLD.report({"k": k, "out": out, "events": spy.count})

    records, status = R.in_child(body, root)
    if status in ("timeout", "starved"):
        raise W.HarnessError("a single call exceeded the wall clock limit")
    if status != 0 or len(records) != len(jobs):
        raise W.HarnessError("counting ended with %r" % (status,))
    return records


class C11(P.Property):
    ident = "C11"

    def each(self, gen, turn):
        """Every query and function in turn, interrupted by itself with other arguments."""
        kind, objs, ops = P.in_turn(gen, turn, 4)
        opcodes = gen.chance(0.6)
        entry = {"outer": ops[0], "inner": ops[1:3]}
        if gen.chance(0.3):
            entry.update(inner=ops[1:2], chain=ops[2 : gen.pick([3, 4])])
        if kind in ("prop", "new"):
            entry.update(first=0.0, every=gen.pick([1, 1, 2]))
        else:
            entry.update(first=gen.pick([0.0, gen.rng.random()]), every=gen.pick([3, 7, 13]))
        return {"objs": objs, "calls": [entry, {"outer": ops[1], "inner": []}], "opcodes": opcodes}

    def generate(self, gen):
        rng = gen.rng
        if gen.index % 5 == 3:
            return self.each(gen, gen.index // 5)
        base = gen.creation()
        objs = [base, gen.sibling(base)]
        if gen.chance(0.5):
            objs.append(gen.creation())
        calls = []
        number = 0
        for _ in range(gen.pick([1, 2, 2, 3])):
            outer = self.some_call(gen, objs, None, "a%d.out" % number)
            number += 1
            inner = []
            for _ in range(gen.pick([1, 1, 2, 3])):
                op = self.some_call(gen, objs, outer, "b%d.out" % number)
                number += 1
                inner.append(op)
            entry = {"outer": outer, "inner": inner}
            if gen.chance(0.35):
                entry["every"] = gen.pick([1, 2, 3, 5, 11])
                entry["first"] = rng.random()
            else:
                entry["fractions"] = [rng.random() for _ in range(gen.pick([1, 3, 8, 15]))]
            if gen.chance(0.2):
                entry["chain"] = []
                for _ in range(gen.pick([1, 1, 2])):
                    entry["chain"].append(self.some_call(gen, objs, outer, "b%d.out" % number))
                    number += 1
            calls.append(entry)
            if gen.chance(0.4):
                calls.append({"outer": self.some_call(gen, objs, outer, "a%d.out" % number), "inner": []})
                number += 1
        return {"objs": objs, "calls": calls, "opcodes": gen.chance(0.6)}

    def some_call(self, gen, objs, like, path):
        """Any call; if like is given, often one that resembles it."""
        if like is not None and gen.chance(0.65):
            if "spec" in like:
                return {"spec": gen.sibling(like["spec"]) if gen.chance(0.8) else like["spec"]}
            same = [i for i, o in enumerate(objs) if O.is_driven(o) == O.is_driven(objs[like["on"]])]
            on = gen.pick(same)
            q = copy.deepcopy(like["q"])
            if q["k"] == "file":
                q["path"] = path
                q["kw"].update(gen.file_kw())
            elif q["k"] == "export" and O.is_driven(objs[on]):
                q["kw"] = gen.plot_kw()
            elif q["k"] == "prop" and gen.chance(0.5):
                q["p"] = gen.pick(O.PROPS)
            elif q["k"] == "convert" and gen.chance(0.6):
                q["kw"] = gen.convert_kw(objs[on])
            return {"on": on, "q": q}
        if gen.chance(0.4):
            return {"spec": gen.creation() if gen.chance(0.9) else gen.bad_creation()}
        on = gen.rng.randrange(len(objs))
        return {"on": on, "q": gen.call(objs[on], path)}

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        plan = copy.deepcopy(plan)
        jobs, index = [], {}

        def job(op):
            key = json.dumps(item(op, plan["objs"]), sort_keys=True)
            if key not in index:
                index[key] = len(jobs)
                jobs.append(item(op, plan["objs"]))
            return index[key]

        for entry in plan["calls"]:
            entry["job"] = job(entry["outer"])
            entry["jobs"] = [job(op) for op in entry["inner"]]
            entry["deeper"] = [job(op) for op in entry.get("chain", [])]
        alone = count_events(jobs, plan["opcodes"], root)
        for entry in plan["calls"]:
            if "points" not in entry:
                total = alone[entry["job"]]["events"]
                points = []
                if entry["inner"] and total:
                    if "every" in entry:
                        first = int(entry["first"] * total)
                        points = list(range(first, total, entry["every"]))[:120]
                    else:
                        points = sorted({int(f * total) for f in entry["fractions"]})
                entry["points"] = [self.point(entry, alone, k, at) for k, at in enumerate(points)]
                for key in ("every", "first", "fractions"):
                    entry.pop(key, None)
        kept = copy.deepcopy(plan)
        for entry in kept["calls"]:
            entry.pop("job", None)
            entry.pop("jobs", None)
            entry.pop("deeper", None)
        result["plan"] = kept
        records, status = R.in_child(lambda: self.run(plan, root), root)
        stuck = self.stuck(records, status)
        if stuck:
            place = next((r["place"] for r in reversed(records) if "place" in r), "?")
            result["violations"].append("%s (interrupted at %s)" % (stuck, place))
            return result
        for record in records:
            if "place" in record:
                continue
            entry = plan["calls"][record["i"]]
            where = "call %d (%s)" % (record["i"], text_of(entry["outer"]))
            result["calls"] += 1
            if record["places"]:
                result["faults"]["interruption"] = result["faults"].get("interruption", 0) + len(record["places"])
            P.compare(
                result, "%s interrupted at %s" % (where, record["places"][:3]), record["out"], alone[entry["job"]]["out"]
            )
            for (k, out), place in zip(record["inner"], record["places"]):
                result["calls"] += 1
                P.compare(
                    result,
                    "%s made at %s inside %s" % (text_of(entry["inner"][k]), place, where),
                    out,
                    alone[entry["jobs"][k]]["out"],
                )
                result["sig"].append(P.sha([brief(entry["outer"]), brief(entry["inner"][k]), place]))
            for k, out, place in record["deeper"]:
                result["calls"] += 1
                result["faults"]["interruption of an interruption"] = result["faults"].get("interruption of an interruption", 0) + 1
                text = "%s made at %s inside a call made inside %s" % (text_of(entry["chain"][k]), place, where)
                P.compare(result, text, out, alone[entry["deeper"][k]]["out"])
                result["sig"].append(P.sha([k, brief(entry["outer"]), brief(entry["chain"][k]), place]))
            result["violations"].extend(record["notes"])
        return result

    def point(self, entry, alone, k, at):
        """An interruption: its place, the call made there, and where that is interrupted in turn."""
        inner = k % len(entry["inner"])
        jobs = [entry["jobs"][inner]] + entry["deeper"][:-1]
        deeper = [(7 * k + 3 * n) % max(1, alone[j]["events"]) for n, j in enumerate(jobs)]
        return [at, inner, deeper if entry["deeper"] else []]

    def run(self, plan, root):
        pkg = W.fresh_package()
        disk = WORLD.disk
        everything = [op for e in plan["calls"] for op in [e["outer"]] + e["inner"] + e.get("chain", [])]
        for path in directories(everything):
            os.makedirs(os.path.join(root, path), exist_ok=True)
        R.apply_ambient(plan.get("ambient", {}))
        objs = [R.guarded(lambda: O.build(pkg, spec))[1] for spec in plan["objs"]]
        L.prelude(plan, pkg, root)
        images = [None if o is None else O.canon(o) for o in objs]
        snap = R.ambient(pkg)
        for i, entry in enumerate(plan["calls"]):
            if "on" in entry["outer"] and objs[entry["outer"]["on"]] is None:
                continue
            inner, deeper = [], []

            def descend(op, places, level):
                """Makes a call that is interrupted in turn, and so on."""
                call = perform(pkg, op, objs, root)
                if not places or level >= len(entry.get("chain", [])):
                    return outcome(call)
                following = entry["chain"][level]
                if "on" in following and objs[following["on"]] is None:
                    return outcome(call)
                within = Interruptions({}, plan["opcodes"])

                def interruption():
                    out = descend(following, places[1:], level + 1)
                    deeper.append((level, out, within.places[-1]))

                within.points[places[0]] = interruption

                def traced():
                    above = sys.gettrace()
                    sys.settrace(within.tracer())
                    out = outcome(call)
                    sys.settrace(above)
                    return out

                return sys.call_tracing(traced, ())

            def interrupt(k, at, places):
                op = entry["inner"][k]
                if "on" in op and objs[op["on"]] is None:
                    return None

                def call():
                    WORLD.report({"place": "event %d of call %d (%s)" % (at, i, text_of(entry["outer"]))})
                    inner.append((k, descend(op, places, 0)))

                return call

            points = {at: interrupt(k, at, places) for at, k, places in entry["points"]}
            spy = Interruptions(points, plan["opcodes"])
            call = perform(pkg, entry["outer"], objs, root)
            fds = R.descriptors()
            disk.arm(True)
            sys.settrace(spy.tracer())
            out = outcome(call)
            sys.settrace(None)
            disk.arm(False)
            notes = []
            for n, (obj, image) in enumerate(zip(objs, images)):
                if obj is not None and O.canon(obj) != image:
                    notes.append("call %d changed object %d" % (i, n))
            leaked = len(R.descriptors() - fds)
            if leaked:
                notes.append("call %d left %d files open" % (i, leaked))
            notes.extend("call %d changed %s" % (i, c) for c in R.ambient_diff(snap, R.ambient(pkg)))
            WORLD.report({"i": i, "out": out, "inner": inner, "deeper": deeper, "places": spy.places, "notes": notes})

    def shrink_candidates(self, plan):
        calls = plan["calls"]
        for i in range(len(calls)):
            if len(calls) > 1:
                yield dict(plan, calls=calls[:i] + calls[i + 1 :])
        for i, entry in enumerate(calls):
            points = entry.get("points", [])
            size = len(points)
            while size >= 1:
                for start in range(0, len(points), size):
                    rest = points[:start] + points[start + size :]
                    if len(rest) < len(points):
                        new = dict(entry, points=rest)
                        yield dict(plan, calls=calls[:i] + [new] + calls[i + 1 :])
                size //= 2
            if any(places for _, _, places in points):
                new = dict(entry, points=[[at, k, []] for at, k, _ in points])
                yield dict(plan, calls=calls[:i] + [new] + calls[i + 1 :])
            used = {k for _, k, _ in points}
            for k in range(len(entry["inner"])):
                if k not in used:
                    new = dict(
                        entry,
                        inner=entry["inner"][:k] + entry["inner"][k + 1 :],
                        points=[[at, j - (j > k), places] for at, j, places in points],
                    )
                    yield dict(plan, calls=calls[:i] + [new] + calls[i + 1 :])
        yield from super().shrink_candidates(plan)


# ------------------------------------------------------------------------- C12


class Node:
    """A process of the simulated cluster: its own instance of the package, its own objects."""

    def __init__(self):
        self.live = {}
        self.start()

    def start(self):
        self.pkg = W.fresh_package()
        self.modules = modules()

    def crash(self):
        self.live = {}
        self.start()

    def enter(self):
        """What follows happens in this process."""
        for name in modules():
            del sys.modules[name]
        sys.modules.update(self.modules)

    def leave(self):
        self.modules = modules()


def modules():
    return {n: m for n, m in sys.modules.items() if n == W.PKG or n.startswith(W.PKG + ".")}


def image_of_error(error):
    """Everything a caller may look at."""
    return [
        O.canon(error),
        [str(a) for a in error.args],
        [[k, O.canon(getattr(error, k))] for k in ("description", "arguments", "extras", "message") if hasattr(error, k)],
        [c.__name__ for c in type(error).__mro__],
    ]


class C12(P.Property):
    ident = "C12"

    CHANGES = ("scale", "element", "swap", "reverse", "zero", "transfer")

    def generate(self, gen):
        rng = gen.rng
        nodes = gen.pick([2, 2, 3])
        ops = []
        slots = {}
        flying = 0
        number = 0
        for _ in range(rng.randrange(5, 16)):
            roll = rng.random()
            if roll < 0.2 or not slots:
                spec = gen.creation()
                slot = "s%d" % number
                number += 1
                slots[slot] = spec
                ops.append({"do": "new", "node": rng.randrange(nodes), "spec": spec, "slot": slot})
            elif roll < 0.42:
                slot = gen.pick(sorted(slots))
                ops.append(
                    {
                        "do": "send",
                        "slot": slot,
                        "message": flying,
                        "how": gen.pick(["pickle", "pickle", "pickle", "file", "deepcopy"]),
                        "protocol": rng.randrange(0, 5),
                    }
                )
                new = "s%d" % number
                number += 1
                arrival = {"do": "deliver", "message": flying, "node": rng.randrange(nodes), "slot": new}
                flying += 1
                slots[new] = slots[slot]
                ops.append(arrival if gen.chance(0.6) else dict(arrival, late=True))
                if gen.chance(0.15):
                    again = "s%d" % number
                    number += 1
                    slots[again] = slots[slot]
                    ops.append(dict(arrival, slot=again, node=rng.randrange(nodes), duplicate=True))
            elif roll < 0.48:
                slot = gen.pick(sorted(slots))
                new = "s%d" % number
                number += 1
                slots[new] = slots[slot]
                ops.append({"do": "copy", "slot": slot, "how": gen.pick(["copy", "deepcopy", "deepcopy"]), "new": new})
            elif roll < 0.66:
                slot = gen.pick(sorted(slots))
                ops.append({"do": "call", "slot": slot, "q": gen.call(slots[slot], "f.out")})
            elif roll < 0.77:
                slot = gen.pick(sorted(slots))
                driven = O.is_driven(slots[slot])
                fields = O.STORED_DC if driven else O.STORED_DDS
                if gen.chance(0.3):
                    ops.append({"do": "rename", "slot": slot, "name": gen.name()})
                else:
                    ops.append(
                        {
                            "do": "change",
                            "slot": slot,
                            "field": gen.pick(fields[1:] if not driven else fields),
                            "act": gen.pick(self.CHANGES),
                            "pos": rng.randrange(30),
                            "v": gen.pick([0.5, 0.25, 0.75, 1 - 1e-7]),
                        }
                    )
            elif roll < 0.92:
                task = {"do": "task", "node": rng.randrange(nodes), "protocol": rng.randrange(0, 5)}
                if gen.chance(0.5):
                    task["spec"] = gen.bad_creation() if gen.chance(0.55) else gen.creation()
                else:
                    slot = gen.pick(sorted(slots))
                    task["slot"] = slot
                    task["q"] = gen.call(slots[slot], "f.out")
                    if task["q"]["k"] == "file" and gen.chance(0.4):
                        bad = gen.pick(sorted(O.Gen.BAD_NAMES))
                        task["q"]["kw"][bad] = gen.pick(O.Gen.BAD_NAMES[bad])
                    if task["q"]["k"] == "convert" and gen.chance(0.4):
                        task["q"]["kw"][gen.pick(["maximum_rabi_rate", "maximum_detuning_rate"])] = gen.pick([0.0, -1.0, 1e-9])
                if gen.chance(0.3):
                    task["fault"] = gen.pick(["crash before", "crash after", "twice"])
                ops.append(task)
            else:
                ops.append({"do": "crash", "node": rng.randrange(nodes)})
        # late messages arrive at some later moment
        for op in [o for o in ops if o.get("late")]:
            ops.remove(op)
            del op["late"]
            sent = next(i for i, o in enumerate(ops) if o["do"] == "send" and o["message"] == op["message"])
            used = [i for i, o in enumerate(ops) if o.get("slot") == op["slot"] and o is not op]
            ops.insert(rng.randrange(sent + 1, (min(used) if used else len(ops)) + 1), op)
        return {"nodes": nodes, "ops": ops}

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        records, status = R.in_child(lambda: self.run(plan, root), root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        calls = [r for r in records if "base" in r]
        alone = R.baseline([r["base"] for r in calls], root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        for record, base in zip(calls, alone):
            result["calls"] += 1
            text = "op %d (%s)" % (record["i"], record["what"])
            P.compare(result, text, record["out"], base["out"])
        signature = []
        for record in records:
            signature.append([record["what"].split(" on ")[0], P.shape(record.get("out", ["-"]))])
            for kind in record.get("faults", []):
                result["faults"][kind] = result["faults"].get(kind, 0) + 1
            for note in record.get("notes", []):
                result["violations"].append("op %d (%s): %s" % (record["i"], record["what"], note))
        if any("to node" in s[0] for s in signature):
            result["sig"].append(P.sha(signature))
        return result

    def run(self, plan, root):
        self.root = root
        self.nodes = [Node() for _ in range(plan["nodes"])]
        self.where = {}
        self.messages = {}
        self.entangled = set()  # shallow copies and their originals
        for i, op in enumerate(plan["ops"]):
            record = {"i": i, "what": op["do"], "notes": []}
            getattr(self, "do_" + op["do"])(op, record)
            WORLD.report(record)

    def holder(self, slot):
        node = self.nodes[self.where[slot]] if slot in self.where else None
        if node is None or node.live.get(slot) is None:
            return None, None
        return node, node.live[slot]

    def others(self, but=None):
        return {
            (n, slot): O.canon(value)
            for n, node in enumerate(self.nodes)
            for slot, value in node.live.items()
            if slot != but and value is not None
        }

    def put(self, n, slot, value):
        self.nodes[n].live[slot] = value
        self.where[slot] = n

    def do_new(self, op, record):
        node = self.nodes[op["node"]]
        node.enter()
        out, value = R.guarded(lambda: O.build(node.pkg, op["spec"]))
        node.leave()
        record.update(what=op["spec"]["fn"], out=out, base={"spec": op["spec"]})
        self.put(op["node"], op["slot"], value)

    def do_send(self, op, record):
        node, obj = self.holder(op["slot"])
        if obj is None:
            return
        node.enter()
        record["what"] = "send by %s to node" % op["how"]
        message = {"data": O.data_of(obj), "image": O.canon(obj)}
        try:
            if op["how"] == "deepcopy":
                copied = copy.deepcopy(obj)
                if O.canon(copied) != message["image"]:
                    record["notes"].append("the copy differs: %s" % O.short(O.canon(copied)))
                shallow = copy.copy(obj)
                if O.canon(shallow) != message["image"]:
                    record["notes"].append("the shallow copy differs: %s" % O.short(O.canon(shallow)))
                for name in O.STORED_DC if O.is_dc(obj) else O.STORED_DDS:
                    if getattr(copied, name, None) is getattr(obj, name):
                        record["notes"].append("the copy shares %s with the original" % name)
                obj = copied
            data = pickle.dumps(obj, protocol=op["protocol"])
            if op["how"] == "file":
                # a checkpoint: only what reached the file survives
                path = os.path.join(self.root, "m%d" % op["message"])
                with open(path, "wb") as handle:
                    handle.write(data)
                message["path"] = path
            message["bytes"] = data
            self.messages[op["message"]] = message
        except Exception as error:
            record["notes"].append("cannot be sent: %r" % (error,))
        if O.canon(node.live[op["slot"]]) != message["image"]:
            record["notes"].append("sending changed the object")
        node.leave()

    def do_copy(self, op, record):
        """A copy that stays in the process of the original."""
        node, obj = self.holder(op["slot"])
        if obj is None:
            return
        record["what"] = op["how"]
        node.enter()
        before = self.others()
        image = O.canon(obj)
        try:
            value = getattr(copy, op["how"])(obj)
        except Exception as error:
            record["notes"].append("cannot be copied: %r" % (error,))
            node.leave()
            return
        if type(value) is not type(obj) or O.canon(value) != image:
            record["notes"].append("the copy differs: %s" % O.short(O.canon(value)))
        if self.others() != before:
            record["notes"].append("copying changed an object")
        node.leave()
        if op["how"] == "copy":
            self.entangled |= {op["slot"], op["new"]}
        self.put(self.where[op["slot"]], op["new"], value)

    def do_deliver(self, op, record):
        message = self.messages.get(op["message"])
        if message is None:
            return
        node = self.nodes[op["node"]]
        record["what"] = "arrive at node"
        if op.get("duplicate"):
            record["faults"] = ["duplicate delivery"]
        node.enter()
        data = message["bytes"]
        if "path" in message:
            with open(message["path"], "rb") as handle:
                data = handle.read()
        before = self.others()
        try:
            value = pickle.loads(data)
        except Exception as error:
            record["notes"].append("cannot be received: %r" % (error,))
            value = None
        else:
            if type(value) is not getattr(node.pkg, message["data"]["fn"]):
                record["notes"].append("arrived as %r" % type(value))
            elif O.canon(value) != message["image"]:
                record["notes"].append(
                    "arrived as %s but was %s" % (O.short(O.canon(value)), O.short(message["image"]))
                )
        if self.others() != before:
            record["notes"].append("the arrival changed another object")
        node.leave()
        self.put(op["node"], op["slot"], value)

    def do_call(self, op, record):
        node, obj = self.holder(op["slot"])
        if obj is None:
            return
        node.enter()
        record["what"] = "%s on node" % P.describe(dict(op, do="get"))
        record["base"] = {"spec": O.data_of(obj), "q": op["q"]}
        before = self.others()
        record["out"], _ = R.guarded(lambda: O.query(node.pkg, obj, op["q"], self.root))
        if self.others() != before:
            record["notes"].append("the call changed an object")
        node.leave()

    def do_change(self, op, record):
        node, obj = self.holder(op["slot"])
        if obj is None:
            return
        array = getattr(obj, op["field"])
        before = self.others(op["slot"])
        record["what"] = "change"
        if not array.size:
            return
        if not array.flags.writeable:
            record["notes"].append("%s cannot be changed any more" % op["field"])
            return
        if array.dtype.kind != "f":
            return
        if op["slot"] in self.entangled:
            # shallow copies share their arrays, not what they hold later
            array = array.copy()
            setattr(obj, op["field"], array)
        n, pos = array.size, op["pos"] % array.size
        if op["act"] == "scale":
            array *= op["v"]
        elif op["act"] == "element":
            array[pos] = array[pos] * op["v"]
        elif op["act"] == "swap":
            array[[pos, (pos + 1) % n]] = array[[(pos + 1) % n, pos]]
        elif op["act"] == "reverse":
            array[...] = array[::-1].copy()
        elif op["act"] == "zero":
            array[pos] = array[pos] * 0.5 if op["field"] == "durations" else 0.0
        else:
            amount = array[pos] * 0.25
            array[pos] -= amount
            array[(pos + 1) % n] += amount
        if self.others(op["slot"]) != before:
            record["notes"].append("changing %s in place changed another object" % op["field"])

    def do_rename(self, op, record):
        node, obj = self.holder(op["slot"])
        if obj is not None:
            record["what"] = "rename"
            before = self.others(op["slot"])
            obj.name = op["name"]
            if self.others(op["slot"]) != before:
                record["notes"].append("renaming changed another object")

    def do_crash(self, op, record):
        record["what"] = "crash"
        record["faults"] = ["crash"]
        self.nodes[op["node"]].crash()

    def do_task(self, op, record):
        """A pool: the task goes to another process, its value or error comes back."""
        if "slot" in op:
            sender, obj = self.holder(op["slot"])
            if obj is None:
                return
        else:
            sender, obj = self.nodes[0], None
        worker = self.nodes[op["node"]]
        fault = op.get("fault")
        if fault and not (worker is sender and fault.startswith("crash")):
            record["faults"] = ["worker " + fault if fault != "twice" else "task run twice"]
        else:
            fault = None
        sender.enter()
        record["base"] = {"spec": op["spec"]} if obj is None else {"spec": O.data_of(obj), "q": op["q"]}
        record["what"] = text_of(op) + " to node"
        try:
            order = pickle.dumps(obj, protocol=op["protocol"])
        except Exception as error:
            record["notes"].append("cannot be sent: %r" % (error,))
            del record["base"]
            sender.leave()
            return
        sender.leave()
        if fault == "crash before":
            worker.crash()
        answer = None
        for _ in range(2 if fault in ("twice", "crash after") else 1):
            worker.enter()
            answer = self.work(op, order, worker, record)
            worker.leave()
            if fault == "crash after":
                worker.crash()
        if answer is None:
            del record["base"]
            return
        kind, data, image = answer
        sender.enter()
        try:
            value = pickle.loads(data)
        except Exception as error:
            record["notes"].append("the %s of the task cannot be received: %r" % (kind, error))
            value = None
        if kind == "error":
            record["out"] = O.canon(value) if isinstance(value, BaseException) else ["?", repr(type(value))]
            if isinstance(value, BaseException) and image_of_error(value) != image:
                record["notes"].append(
                    "the error arrived as %s but was %s" % (O.short(image_of_error(value)), O.short(image))
                )
            if isinstance(value, BaseException) and image[0][1] == "ArgumentsValueError":
                if not isinstance(value, sys.modules[W.PKG + ".exceptions"].ArgumentsValueError):
                    record["notes"].append("the error arrived as another class")
        else:
            record["out"] = O.canon(value)
        if value is None and record["notes"]:
            del record["base"]
        sender.leave()

    def work(self, op, order, worker, record):
        try:
            obj = pickle.loads(order)
        except Exception as error:
            record["notes"].append("the object of the task cannot be received: %r" % (error,))
            return None
        call = perform(worker.pkg, op if obj is None else {"on": 0, "q": op["q"]}, [obj], self.root)
        try:
            value = call()
        except Exception as error:
            kind, result, image = "error", error, image_of_error(error)
        else:
            kind, result, image = "value", value, None
        try:
            return kind, pickle.dumps(result, protocol=op["protocol"]), image
        except Exception as error:
            record["notes"].append("the %s of the task cannot be sent: %r" % (kind, error))
            return None


# ------------------------------------------------------------------------- C13


RUNTIME_LOCKS = [("concurrent.futures.thread", "_global_shutdown_lock"), ("logging", "_lock")]


class ForkingThreads(R.Threads):
    """Threads of which some fork; the child goes on alone, as after os.fork()."""

    def call_of(self, op, pool, t, k):
        if "fork" not in op:
            return super().call_of(op, pool, t, k)
        return lambda: self.fork_here(op["fork"], pool, t, k)

    def fork_here(self, calls, pool, t, k):
        sched = WORLD.sched
        trace = sys.gettrace()
        sys.settrace(None)
        # the runtime takes these around a fork: wait for them as it would
        locks = [getattr(sys.modules.get(name), attribute, None) for name, attribute in RUNTIME_LOCKS]
        locks = [lock for lock in locks if isinstance(lock, (W.SimLock, W.SimRLock))]
        for lock in locks:
            lock.acquire()
        for lock in locks:
            lock._at_fork_reinit()
            WORLD.unblock(("lock", id(getattr(lock, "_block", lock))))
        inside = sum(1 for task in sched.tasks if task.ident != t and task.events and task.state != "done")
        WORLD.sched = None  # nothing is scheduled while the runtime forks
        pid = os.fork()
        if pid:
            WORLD.sched = sched
            status = self.wait(pid)
            WORLD.report({"forked": [t, k], "status": status, "inside": inside})
            sys.settrace(trace)
            if status == W.EXIT_STUCK:
                WORLD.report({"stuck": "the forked process hangs", "switches": sched.switches})
                os._exit(W.EXIT_STUCK)
            sched.point(-5)
            return None
        try:
            W.die_with_parent()
            WORLD.tracer = None
            WORLD.unscheduled = 0
            WORLD.sched = W.Scheduler(WORLD, {"kind": "serial"}, [None]).adopt()
            disk = WORLD.disk
            disk.clear_faults()
            for j, op in enumerate(calls):
                if "on" in op and pool[op["on"]] is None:
                    continue
                call = perform(self.pkg, op, pool, self.root)
                fds = R.descriptors()
                disk.arm(True)
                sys.settrace(R.watchdog(400000))
                out = outcome(call)
                sys.settrace(None)
                disk.arm(False)
                WORLD.report({"child": [t, k, j], "out": out, "leaked": len(R.descriptors() - fds)})
        except BaseException as error:
            WORLD.report({"harness": "forked child: %r" % (error,)})
            os._exit(3)
        os._exit(0)


    def wait(self, pid):
        until = R._monotonic() + 30
        while R._monotonic() < until:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                return os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
            W._real_sleep(0.0005)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return W.EXIT_STUCK


class C13(P.Concurrent):
    ident = "C13"

    def generate(self, gen):
        rng = gen.rng
        base = gen.creation()
        objs = [base, gen.sibling(base)]
        if gen.chance(0.4):
            objs.append(gen.creation())
        threads = []
        number = 0
        busy = []
        c11 = C11()
        like = None
        for t in range(gen.pick([1, 1, 2, 3])):
            calls = []
            for k in range(gen.pick([1, 2, 3])):
                op = c11.some_call(gen, objs, like, "d/p%d.out" % number)
                number += 1
                like = like or op
                calls.append(op)
            busy.append(calls)
        forks = []
        for _ in range(gen.pick([1, 1, 2, 3])):
            inner = []
            for _ in range(gen.pick([1, 2, 3, 4])):
                inner.append(c11.some_call(gen, objs, like, "d/c%d.out" % number))
                number += 1
            forks.append({"fork": inner})
            if gen.chance(0.3):
                forks.append(c11.some_call(gen, objs, like, "d/p%d.out" % number))
                number += 1
        threads = busy + [forks]
        return {
            "objs": objs,
            "threads": threads,
            "dirs": ["d"],
            "schedule": self.schedule(gen, len(busy)),
            "opcodes": gen.chance(0.8),
        }

    def schedule(self, gen, forker):
        horizon = gen.pick([40, 150, 600, 2000, 6000])
        return {
            "kind": "visits",
            "task": forker,
            "at": sorted(gen.rng.randrange(1, horizon) for _ in range(8)),
            "p": gen.pick([0.0, 0.2, 0.05, 0.01]),
            "seed": gen.rng.randrange(1 << 30),
        }

    def items(self, plan):
        where, items = [], []
        for t, calls in enumerate(plan["threads"]):
            for k, op in enumerate(calls):
                for j, inner in enumerate(op.get("fork", [])):
                    where.append((t, k, j))
                    items.append(item(inner, plan["objs"]))
                if "fork" not in op:
                    where.append((t, k))
                    items.append(item(op, plan["objs"]))
        return where, items

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        where, items = self.items(plan)
        alone = R.baseline(items, root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        records, status = R.in_child(lambda: ForkingThreads(plan, root).run(), root)
        for record in records:
            if "forked" in record:
                kind = "fork inside calls" if record["inside"] else "fork"
                result["faults"][kind] = result["faults"].get(kind, 0) + 1
        stuck = self.stuck(records, status)
        if stuck:
            details = [r["stuck"] for r in records if "stuck" in r]
            switches = next((r["switches"] for r in reversed(records) if "stuck" in r), [])
            result["violations"].append("; ".join(details[-1:] + details[:-1]) if details else stuck)
            result["plan"] = dict(plan, schedule={"kind": "explicit", "switches": switches})
            return result
        done = next(r for r in records if "done" in r)
        outs = {(r["t"], r["k"]): r["out"] for r in records if "t" in r}
        for record in records:
            if "child" in record:
                outs[tuple(record["child"])] = record["out"]
                if record["leaked"]:
                    result["violations"].append("call %r left files open" % (record["child"],))
            if "forked" in record and record["status"] != 0:
                result["violations"].append("the forked process ended with status %d" % record["status"])
        for at, job, base in zip(where, items, alone):
            if at in outs:
                result["calls"] += 1
                op = plan["threads"][at[0]][at[1]]
                op = op["fork"][at[2]] if len(at) == 3 else op
                text = "%s %r (%s)" % ("forked process" if len(at) == 3 else "thread", at, text_of(op))
                P.compare(result, text, outs[at], base["out"])
        result["violations"].extend(done["notes"])
        if done["extra"]:
            result["violations"].append("extra files were left behind: %s" % done["extra"])
        if done["leaked"]:
            result["violations"].append("%d files were left open" % done["leaked"])
        result["steps"] = done["steps"]
        result["switches"] = len(done["switches"])
        result["plan"] = dict(plan, schedule={"kind": "explicit", "switches": done["switches"]})
        if any(r["inside"] for r in records if "forked" in r):
            result["sig"].append(done["trail"])
        return result

    def shrink_candidates(self, plan):
        threads = plan["threads"]
        for t in range(len(threads)):
            for k, op in enumerate(threads[t]):
                for j in range(len(op.get("fork", []))):
                    if len(op["fork"]) > 1:
                        new = [list(x) for x in threads]
                        new[t][k] = {"fork": op["fork"][:j] + op["fork"][j + 1 :]}
                        yield dict(plan, threads=new)
        yield from super().shrink_candidates(plan)


# ------------------------------------------------------------------------- C14


class C14(P.Property):
    ident = "C14"

    BATCH = 250
    WARM = 2
    LAST = 24
    LIMIT = 20  # the simulator and the runtime account for up to about twelve

    def generate(self, gen):
        rng = gen.rng
        focus = gen.pick([None, None, "prop", "export", "str", "repr", "convert", "file", "file"])
        return {
            "seed": rng.randrange(1 << 30),
            "functions": [gen.any_function()["fn"] for _ in range(gen.pick([1, 2, 3]))],
            "queries": focus is not None or gen.chance(0.6),
            "rejected": gen.pick([0.0, 0.1, 0.5]),
            "aborts": gen.pick([0.0, 0.0, 0.3, 1.0]),
            "calls": gen.chance(0.3),
            "faults": gen.pick([0.0, 0.5, 1.0] if focus == "file" else [0.0, 0.0, 0.5]),
            "files": focus == "file" or gen.chance(0.6),
            "paths": gen.chance(0.5),
            "focus": focus,
            "warn": gen.pick(["ignore", "default"]),
            "threads": gen.chance(0.25),
            "batches": 2,
        }

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        records, status = R.in_child(lambda: self.run(plan, root), root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        done = records[-1]
        result["calls"] = done["calls"]
        result["faults"] = {k: v for k, v in done["faults"].items() if v}
        growths = done["growths"]
        result["growth_of_live_objects_over_all_runs"] = sum(growths)
        if all(g >= self.LIMIT for g in growths):
            result["violations"].append(
                "retained: over %d further calls each the number of live objects grew by %s (%s)"
                % (self.BATCH, growths, dict(sorted(done["kinds"].items(), key=lambda k: -k[1])[:4]))
            )
        for kind in ("leaked files", "threads", "files left behind"):
            if done[kind] and not (plan["aborts"] and kind != "threads"):
                result["violations"].append("%s: %s" % (kind, done[kind]))
        result["sig"].append(
            P.sha([sorted(plan["functions"]), plan["queries"], plan["files"], sorted(result["faults"]), plan["rejected"], plan["threads"]])
        )
        return result

    def shrink_candidates(self, plan):
        for key in ("rejected", "aborts", "faults"):
            if plan[key]:
                yield dict(plan, **{key: 0.0})
        for key in ("queries", "files", "paths", "threads"):
            if plan[key]:
                yield dict(plan, **{key: False})
        if len(plan["functions"]) > 1:
            for i in range(len(plan["functions"])):
                yield dict(plan, functions=plan["functions"][:i] + plan["functions"][i + 1 :])

    def run(self, plan, root):
        pkg = W.fresh_package()
        gen = O.Gen(random.Random(plan["seed"]))
        if pypyjit is not None:
            pypyjit.set_param("off")  # compiled loops would keep objects they met alive
        os.makedirs(os.path.join(root, "d"))
        warnings.simplefilter(plan["warn"])
        warnings.showwarning = lambda *args, **kwargs: None
        templates = []
        while len(templates) < len(plan["functions"]):
            wanted = plan["functions"][len(templates)]
            spec = gen.creation()
            if spec["fn"] == wanted:
                templates.append(spec)
        life = L.Life(pkg, root, plan, templates)
        for _ in range(self.WARM):
            life.spend(self.BATCH)
        self.settle()
        for _ in range(2):
            self.population()  # counting leaves something behind the first time
        fds = R.descriptors()
        threads = threading.active_count()
        before = self.population()
        growths = []
        # a table that is bounded stops growing at some time
        while len(growths) < plan["batches"] or len(growths) < self.LAST and min(growths) >= self.LIMIT:
            life.spend(self.BATCH)
            after = self.population()
            kinds = self.growth(before, after)
            growths.append(sum(kinds.values()))
            before = after
        left = [p for p in R.tree(root) if not p.endswith("/") and p not in ("d/a.out", "d/b.out")]
        WORLD.report(
            {
                "calls": life.calls,
                "faults": dict(life.faults),
                "growths": growths,
                "kinds": kinds,
                "leaked files": len(R.descriptors() - fds),
                "threads": max(0, threading.active_count() - threads),
                "files left behind": left[:5],
            }
        )

    def settle(self):
        for _ in range(4):
            gc.collect()

    def population(self):
        self.settle()
        # kept as text: the count must not itself become part of the population
        return json.dumps(collections.Counter(type(x).__name__ for x in gc.get_objects()))

    def growth(self, before, after):
        before, after = json.loads(before), json.loads(after)
        return {k: after.get(k, 0) - before.get(k, 0) for k in set(before) | set(after) if after.get(k) != before.get(k)}


ALL = {cls.ident: cls for cls in (C11, C12, C13, C14)}
