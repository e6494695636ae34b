"""
Properties about several parties at once: processes exporting side by side (C15), aborts in
one of several threads (C16), and what threads see of each other's calls in process-wide
state (C17).  Same interface as props.py.
"""
import copy
import errno
import os
import random
import select

import numpy as np

from . import ops as O
from . import props as P
from . import runs as R
from . import world as W
from .world import WORLD

# ------------------------------------------------------------------------- C15


class Turns:
    """Decides which process goes on."""

    def __init__(self, spec, count):
        self.spec = spec
        self.kind = spec["kind"]
        self.rng = random.Random(spec.get("seed", 0))
        self.current = 0
        self.steps = 0
        self.prio = list(range(count))
        self.rng.shuffle(self.prio)
        self.taken = []  # run-length encoded
        if self.kind == "explicit":
            self.script = [i for i, n in spec["turns"] for _ in range(n)]
        elif self.kind == "pct":
            self.changes = {self.rng.randrange(1, spec["horizon"]) for _ in range(spec["depth"])}

    def choose(self, alive, waiting):
        ready = [i for i in alive if i not in waiting] or alive
        choice = self.current
        if self.kind == "explicit":
            choice = self.script[self.steps] if self.steps < len(self.script) else self.current
            ready = alive
        elif self.kind == "random":
            if self.rng.random() < self.spec["p"]:
                choice = ready[self.rng.randrange(len(ready))]
        elif self.kind == "robin":
            if self.steps % self.spec["every"] == 0:
                later = [i for i in ready if i > self.current]
                choice = (later or ready)[0]
        else:
            if self.steps in self.changes:
                self.prio[self.current] = min(self.prio) - 1
            choice = max(ready, key=lambda i: self.prio[i])
        if choice not in ready:
            choice = ready[self.steps % len(ready)] if self.kind != "explicit" else ready[0]
        self.steps += 1
        self.current = choice
        if self.taken and self.taken[-1][0] == choice:
            self.taken[-1][1] += 1
        else:
            self.taken.append([choice, 1])
        return choice


class Member:
    """A real process that runs only when told to."""

    def __init__(self, pid, events, token):
        self.pid, self.events, self.token = pid, events, token

    def close(self):
        os.close(self.events)
        os.close(self.token)


class Cluster:
    CAP = 20000

    def __init__(self, plan, root):
        self.plan = plan
        self.root = root
        self.members = {}
        self.lives = {}
        self.begun = {}

    def run(self):
        plan = self.plan
        R.place_files(self.root, {p: R.content_of(c) for p, c in plan.get("files", {}).items()})
        for path in plan["dirs"]:
            os.makedirs(os.path.join(self.root, path), exist_ok=True)
        self.progress = os.path.join(self.root, "progress")
        os.makedirs(self.progress)
        for i in range(len(plan["processes"])):
            self.start(i, 0)
        turns = Turns(plan["schedule"], len(plan["processes"]))
        trail, waiting, idle, crashes = [], set(), 0, 0
        while self.members:
            i = turns.choose(sorted(self.members), waiting)
            member = self.members[i]
            os.write(member.token, b"g")
            what = self.listen(member)
            trail.append((i, what))
            idle = idle + 1 if what in ("B", "Z") else 0
            if what in ("B", "Z"):
                waiting.add(i)
                if waiting >= set(self.members):
                    waiting = set()
            else:
                waiting = set()
            if idle > 400 * len(self.members) or turns.steps > self.CAP:
                WORLD.report({"stuck": "does not finish: the processes wait for each other", "turns": turns.taken})
                os._exit(W.EXIT_STUCK)
            if what:
                continue
            status = os.waitpid(member.pid, 0)[1]
            status = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
            member.close()
            del self.members[i]
            if status == W.EXIT_CRASH:
                crashes += 1
                if plan["processes"][i].get("restart"):
                    self.start(i, self.call_of(i))
            elif status:
                WORLD.report({"ended": i, "status": status})
        for name in os.listdir(self.progress):
            os.unlink(os.path.join(self.progress, name))
        os.rmdir(self.progress)
        tree = {
            p: None if c is None else c.decode("utf-8", "surrogateescape")
            for p, c in R.tree(self.root).items()
            if not p.endswith("/")
        }
        WORLD.report(
            {"done": True, "tree": tree, "turns": turns.taken, "steps": turns.steps, "trail": R.digest(trail), "crashes": crashes}
        )

    def listen(self, member):
        if not select.select([member.events], [], [], 60.0)[0]:
            WORLD.harness_failure("a process neither ended nor reached the disk within a minute")
        return os.read(member.events, 1).decode()

    def call_of(self, i):
        """The call a crashed process was making."""
        with open(os.path.join(self.progress, str(i))) as handle:
            return int(handle.read())

    def start(self, i, first):
        life = self.lives[i] = self.lives.get(i, -1) + 1
        events, event_writer = os.pipe()
        token_reader, token = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 3
            try:
                W.die_with_parent()
                os.close(events)
                os.close(token)
                for member in self.members.values():
                    member.close()
                self.member_main(i, life, first, event_writer, token_reader)
                status = 0
            except BaseException as error:
                WORLD.disk.arm(False)
                WORLD.report({"harness": "process %d: %r" % (i, error)})
            finally:
                os._exit(status)
        os.close(event_writer)
        os.close(token_reader)
        self.members[i] = member = Member(pid, events, token)
        if self.listen(member) != "Z":
            raise W.HarnessError("process %d did not start" % i)

    def member_main(self, i, life, first, out, into):
        disk = WORLD.disk
        WORLD.unscheduled = 0
        WORLD.sched = W.Scheduler(WORLD, {"kind": "serial"}, [None]).adopt()
        seed = self.plan["seed"] + 1000 * i + life
        WORLD.entropy.rng.seed(seed)
        random.seed(seed)
        np.random.seed(seed)
        mine = self.plan["processes"][i]
        if "cwd" in mine:
            os.chdir(os.path.join(self.root, mine["cwd"]))
        disk.lib.sim_gate(out, into)
        WORLD.on_sleep = disk.lib.sim_yield
        disk.lib.sim_yield()
        pkg = W.fresh_package()
        objs = {}
        for k, op in enumerate(mine["calls"]):
            if k < first:
                continue
            if op["on"] not in objs:
                objs[op["on"]] = R.guarded(lambda: O.build(pkg, self.plan["objs"][op["on"]]))[1]
            obj = objs[op["on"]]
            if obj is None:
                continue
            with open(os.path.join(self.progress, str(i)), "w") as handle:
                handle.write(str(k))
            faults = []
            if k > first or life == 0:
                faults = [disk.add_fault(f) for f in op.get("faults", [])]
            fds = R.descriptors()
            image = O.canon(obj)
            outside = disk.outside()
            disk.arm(True)
            result, _ = R.guarded(lambda: O.query(pkg, obj, op["q"], self.root))
            disk.arm(False)
            record = {
                "p": i,
                "k": k,
                "out": result,
                "fired": [disk.fired(f) for f in faults],
                "data": O.data_of(obj),
                "leaked": len(R.descriptors() - fds),
            }
            disk.clear_faults()
            if O.canon(obj) != image:
                record["changed"] = True
            if disk.outside() != outside:
                record["outside"] = True
            if O.is_dds(obj) and result[0] == "file":
                rates = P.rates_of(op["q"]["kw"])
                _, control = R.guarded(lambda: pkg.convert_dds_to_driven_control(obj, *rates, name=obj.name))
                if control is not None:
                    record["equivalent"] = O.data_of(control)
            WORLD.report(record)


class C15(P.Property):
    ident = "C15"

    def generate(self, gen):
        rng = gen.rng
        objs, rates = [], []
        for _ in range(gen.pick([1, 2, 2, 3])):
            spec, rate = P.exportable(gen, big=gen.chance(0.3))
            objs.append(spec)
            rates.append(rate)
            if gen.chance(0.5):
                objs.append(gen.sibling(spec))
                rates.append(rate)
        naming = gen.pick(["name", "suffix", "stem", "prefix", "cwd"])
        source = P.Faults(gen)
        processes, dirs, files = [], {"d"}, {}
        number = 0
        for p in range(gen.pick([2, 2, 3, 3, 4])):
            process = {"calls": []}
            if naming == "cwd":
                process["cwd"] = "w%d" % p
                dirs.add("w%d" % p)
            for k in range(gen.pick([1, 1, 2, 3])):
                given = None
                if naming == "name":
                    path = "d/out%d_%d.csv" % (p, k)
                elif naming == "suffix":
                    path = "d/out.%s" % (["csv", "json", "txt", "dat", "0", "1", "2", "3", "4", "5", "6", "7"][number])
                elif naming == "stem":
                    path = "d/t%d%d/out.csv" % (p, k)
                elif naming == "prefix":
                    path = "d/out" + "1" * number
                else:
                    given = "out%d.csv" % k
                    path = "w%d/%s" % (p, given)
                number += 1
                dirs.add(os.path.dirname(path))
                on = rng.randrange(len(objs))
                q = {"k": "file", "path": path, "kw": dict(gen.file_kw(), **rates[on])}
                if given:
                    q["given"] = given
                if gen.chance(0.4):
                    files[path] = gen.pick(P.CONTENTS)
                faults = []
                if gen.chance(0.3):
                    faults = source.hard(interrupt=False)
                elif gen.chance(0.2):
                    faults = [source.soft()]
                process["calls"].append({"on": on, "q": q, "faults": faults})
            processes.append(process)
        if gen.chance(0.5):
            for process in rng.sample(processes, gen.pick([1, 1, 2])):
                call = gen.pick(process["calls"])
                kind = gen.pick(["crash_before", "crash_before", "crash_partial", "crash_after"])
                call["faults"] = [{"kind": kind, "ops": 255, "ordinal": rng.randrange(0, 6), "arg": gen.pick([0, 1, 500, 999])}]
                process["restart"] = gen.chance(0.6)
        for name in ("d/notes.txt", "d/old.csv", "d/.hidden"):
            if gen.chance(0.4):
                files[name] = gen.pick(P.CONTENTS)
        seed = rng.randrange(1 << 30)
        roll = rng.random()
        if roll < 0.5:
            schedule = {"kind": "random", "p": gen.pick([1.0, 0.5, 0.2, 0.1]), "seed": seed}
        elif roll < 0.75:
            schedule = {"kind": "pct", "depth": gen.pick([1, 2, 3, 5]), "horizon": gen.pick([10, 30, 80]), "seed": seed}
        else:
            schedule = {"kind": "robin", "every": gen.pick([1, 1, 2, 3, 5])}
        return {
            "objs": objs,
            "processes": processes,
            "files": files,
            "dirs": sorted(dirs),
            "schedule": schedule,
            "seed": rng.randrange(1 << 30),
        }

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        calls = [(p, k, op) for p, process in enumerate(plan["processes"]) for k, op in enumerate(process["calls"])]
        alone = R.baseline([{"spec": plan["objs"][op["on"]], "q": {k: v for k, v in op["q"].items() if k != "given"}} for _, _, op in calls], root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        documents = {(p, k): base["out"] for (p, k, _), base in zip(calls, alone)}
        records, status = R.in_child(lambda: Cluster(plan, root).run(), root)
        stuck = self.stuck(records, status)
        if stuck:
            turns = next((r["turns"] for r in records if "turns" in r), None)
            result["violations"].append(stuck)
            if turns is not None:
                result["plan"] = dict(plan, schedule={"kind": "explicit", "turns": turns})
            return result
        done = records[-1]
        result["plan"] = dict(plan, schedule={"kind": "explicit", "turns": done["turns"]})
        result["turns"] = done["steps"]
        if done["crashes"]:
            result["faults"]["crash"] = done["crashes"]
        ended = {}
        for record in records:
            if "ended" in record:
                raise W.HarnessError("process %d ended with status %d" % (record["ended"], record["status"]))
            if "k" in record:
                ended[(record["p"], record["k"])] = record
        destinations = {}
        for p, k, op in calls:
            path = op["q"]["path"]
            destinations[path] = (p, k)
            record = ended.get((p, k))
            text = None
            where = "process %d call %d (%s)" % (p, k, P.describe(dict(op, do="get")))
            if record is None:
                document = documents[(p, k)]
                found = done["tree"].get(path)
                old = R.content_of(plan["files"][path]) if path in plan["files"] else None
                if document[0] == "file" and found != old and not (found is not None and document[1].startswith(found)):
                    text = "never ended, and its file holds neither the old content nor a prefix of the new"
            else:
                result["calls"] += 1
                text = self.complaint(op, record, done["tree"].get(path), result)
            if text:
                result["violations"].append("%s: %s" % (where, text))
        for path, content in sorted(plan["files"].items()):
            if path not in destinations and done["tree"].get(path) != R.content_of(content):
                result["violations"].append("%s, which nobody exported to, was changed" % path)
        extra = sorted(set(done["tree"]) - set(destinations) - set(plan["files"]))
        if extra and not done["crashes"]:
            result["violations"].append("extra files were left behind: %s" % extra[:4])
        if len(done["turns"]) > len(plan["processes"]):
            result["sig"].append(P.sha([done["trail"], sorted(result["faults"])]))
        return result

    def complaint(self, op, record, found, result):
        kw = op["q"]["kw"]
        fired = [f for f, n in zip(op.get("faults", []), record["fired"]) if n > 0]
        P.count_faults(result, op, record)
        if record.get("changed"):
            return "changed the exported object"
        if record.get("outside"):
            return "touched other files"
        if record["leaked"]:
            return "left %d files open" % record["leaked"]
        out = record["out"]
        if out[0] == "file":
            text = P.document_complaint(out[1], record["data"], kw, record.get("equivalent"))
            if text:
                return "returned normally but " + text
            if found != out[1]:
                return "its file was changed afterwards"
            return None
        if fired:
            numbers = {str(f["errno"]) for f in fired if f["kind"] == "err"}
            numbers |= {str(errno.EINTR)} if any(f["kind"] == "eintr" for f in fired) else set()
            if out[1] not in P.OS_ERRORS or out[2] not in numbers:
                return "raised %s instead of its storage error" % O.short(out, 200)
            return None
        if P.should_reject(record["data"], kw) is False:
            return "valid export on healthy storage raised %s" % O.short(out, 200)
        return None

    def shrink_candidates(self, plan):
        processes = plan["processes"]
        for p in range(len(processes)):
            if processes[p]["calls"]:
                yield dict(plan, processes=processes[:p] + [dict(processes[p], calls=[])] + processes[p + 1 :])
        for p, process in enumerate(processes):
            for k in range(len(process["calls"])):
                new = dict(process, calls=process["calls"][:k] + process["calls"][k + 1 :])
                yield dict(plan, processes=processes[:p] + [new] + processes[p + 1 :])
            for k, op in enumerate(process["calls"]):
                if op["faults"]:
                    calls = list(process["calls"])
                    calls[k] = dict(op, faults=[])
                    yield dict(plan, processes=processes[:p] + [dict(process, calls=calls)] + processes[p + 1 :])
        if plan["schedule"]["kind"] == "explicit":
            turns = plan["schedule"]["turns"]
            for n in range(len(turns) - 1):
                # one switch fewer: a stretch is moved in front of the one before it
                new = [list(t) for t in turns]
                new[n], new[n + 1] = new[n + 1], new[n]
                merged = []
                for i, count in new:
                    if merged and merged[-1][0] == i:
                        merged[-1][1] += count
                    else:
                        merged.append([i, count])
                if len(merged) < len(turns):
                    yield dict(plan, schedule={"kind": "explicit", "turns": merged})
        yield from super().shrink_candidates(plan)


# ------------------------------------------------------------------------- C16


class C16(P.Concurrent):
    ident = "C16"

    def sweep(self, gen, turn):
        """One call, each in turn, aborted at one point after the other: what is left behind adds up."""
        _, objs, ops = P.in_turn(gen, turn)
        error, calls, function = gen.pick(sorted(R.ABORTS)), gen.chance(0.5), gen.chance(0.7)
        count = gen.pick([16, 24, 40])
        aborted = []
        for k in range(count):
            abort = {"fraction": (k + gen.rng.random()) / count, "error": error, "calls": calls, "function": function}
            aborted.append(dict(copy.deepcopy(ops[0]), abort=abort))
        if gen.chance(0.5):
            gen.rng.shuffle(aborted)
        return {
            "objs": objs,
            "threads": [aborted, ops[1:], [copy.deepcopy(ops[2])] if "spec" in ops[2] else []],
            "after": copy.deepcopy(ops),
            "dirs": [],
            "schedule": P.schedule(gen),
            "opcodes": True,
            "gc": gen.chance(0.7),
        }

    def generate(self, gen):
        if gen.index % 3 == 1:
            return self.sweep(gen, gen.index // 3)
        plan = P.C05().generate(gen)
        calls = [(t, k) for t, ops in enumerate(plan["threads"]) for k in range(len(ops))]
        chosen = gen.rng.sample(calls, min(len(calls) - 1, gen.pick([1, 1, 2, 3])))
        plan["after"] = []
        plan["gc"] = gen.chance(0.7)
        for t, k in sorted(chosen):
            op = copy.deepcopy(plan["threads"][t][k])
            plan["after"].append(copy.deepcopy(op))
            op["abort"] = {
                "fraction": gen.rng.random(),
                "error": gen.pick(sorted(R.ABORTS)),
                "calls": plan["opcodes"] and gen.chance(0.4),
                "function": gen.chance(0.5),
            }
            plan["threads"][t][k] = op
        for op in plan["threads"][0][:2]:
            if gen.chance(0.3):
                plan["after"].append({k: v for k, v in copy.deepcopy(op).items() if k != "abort"})
        return plan

    def items(self, plan):
        where, items = super().items(plan)
        for k, op in enumerate(plan.get("after", [])):
            where.append((-1, k))
            items.append({"spec": plan["objs"][op["on"]], "q": op["q"]} if "on" in op else {"spec": op["spec"]})
        for (t, k), item in zip(where, items):
            if t >= 0 and "abort" in plan["threads"][t][k]:
                item["count"] = "calls" if plan["threads"][t][k]["abort"].get("calls") else "lines"
        return where, items

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        plan = copy.deepcopy(plan)
        where, items = self.items(plan)
        alone = R.baseline(items, root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        for (t, k), base in zip(where, alone):
            if t >= 0 and "abort" in plan["threads"][t][k]:
                abort = plan["threads"][t][k]["abort"]
                if "fraction" in abort:
                    abort["at"] = R.position(base, abort)
                    del abort["fraction"]
        done, outs = self.execute(plan, root, result)
        if done is None:
            return result
        fired = {}
        for t, k, place, same in done["aborted"]:
            if place:
                fired[(t, k)] = place
                error = plan["threads"][t][k]["abort"]["error"]
                result["faults"]["abort:" + error] = result["faults"].get("abort:" + error, 0) + 1
                if not same:
                    result["violations"].append(
                        "%s aborted at %s did not pass the exception on" % (self.op_text(plan, t, k), place)
                    )
        for (t, k), base in zip(where, alone):
            if (t, k) in outs and (t, k) not in fired:
                text = self.op_text(plan, t, k) if t >= 0 else "later call %d" % k
                P.compare(result, text, outs[(t, k)], base["out"])
        result["violations"].extend(done["notes"])
        result["violations"].extend("the calls changed " + c for c in done["ambient"])
        if done["leaked"] and not fired:
            result["violations"].append("%d files were left open" % done["leaked"])
        if fired and result["switches"] and sum(1 for c in plan["threads"] if c) > 1:
            result["sig"].append(P.sha([done["trail"], sorted(fired.items())]))
        return result


# ------------------------------------------------------------------------- C17


class C17(P.Concurrent):
    ident = "C17"

    def generate(self, gen):
        if gen.index % 3 == 1:
            _, objs, ops = P.in_turn(gen, gen.index // 3)
            plan = {"objs": objs, "threads": [ops[:1], ops[1:]], "dirs": [], "schedule": P.schedule(gen), "opcodes": True}
        elif gen.chance(0.35):
            plan = P.C10().generate(gen)
        else:
            plan = P.C05().generate(gen)
        for calls in plan["threads"]:
            for k in range(len(calls)):
                if gen.chance(0.12):
                    calls[k] = {"spec": gen.bad_creation()}
        plan["watch"] = gen.pick([1.0, 0.5, 0.3])
        plan["gc"] = gen.chance(0.7)
        return plan

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        done, outs = self.execute(plan, root, result)
        if done is None:
            return result
        for fault, fired in zip(plan.get("faults", []), done["fired"]):
            if fired:
                result["faults"]["storage " + fault["kind"]] = result["faults"].get("storage " + fault["kind"], 0) + fired
        result["observations"] = done["watched"]
        result["violations"].extend("while calls were in progress, other threads saw changed " + c for c in done["seen"])
        result["violations"].extend("after all calls had ended there was a change of " + c for c in done["ambient"])
        if result["switches"] and sum(1 for c in plan["threads"] if c) > 1:
            result["sig"].append(done["trail"])
        return result


ALL = {cls.ident: cls for cls in (C15, C16, C17)}
