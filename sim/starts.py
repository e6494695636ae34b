"""
Processes started under all kinds of conditions (C18).  Same interface as props.py.
"""
import json
import os
import resource
import signal

from . import ops as O
from . import props as P
from . import runs as R
from . import world as W
from .world import WORLD

PYTHON = "/opt/venv/bin/python"
LAUNCH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "launch.py")


class C18(P.Property):
    ident = "C18"

    SITES = ("main", "thread", "loop", "signal", "exit", "fork", "deep", "exec")

    def start(self, gen):
        """The conditions; most processes have several unusual ones."""
        rng = gen.rng
        start = {"hash": rng.randrange(1 << 31)}
        if gen.chance(0.35):
            start["optimise"] = gen.pick(["-O", "-OO", "-OO"])
        if gen.chance(0.3):
            start["options"] = gen.pick([["-X", "utf8"], ["-u"], ["-W", "always"], ["-W", "default"], ["-X", "dev"]])
        if gen.chance(0.6):
            start["env"] = {}
            choice = (
                {},
                {"LC_ALL": "C"},
                {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
                {"LANG": "de_DE.ISO-8859-1", "LC_NUMERIC": "de_DE", "PYTHONIOENCODING": "ascii"},
                {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "TZ": "Pacific/Kiritimati"},
                {"PATH": "", "DEBUG": "1", "VERBOSE": "1", "CI": "1"},
                {"TERM": "dumb", "COLUMNS": "1", "PAGER": "false", "EDITOR": "false"},
                {"PYTHONWARNINGS": "always", "PYTHONFAULTHANDLER": "1", "PYTHONINSPECT": ""},
            )
            for _ in range(gen.pick([1, 2, 3])):
                start["env"].update(gen.pick(choice))
        if gen.chance(0.5):
            start["streams"] = [gen.pick(["null", "closed", "closed", "broken", "full"]) for _ in range(3)]
        if gen.chance(0.4):
            start["cwd"] = gen.pick(["gone", "/", "odd"])
        if gen.chance(0.3):
            start["umask"] = gen.pick([0o000, 0o077, 0o027])
        if gen.chance(0.3):
            start["fds"] = gen.pick([4, 6, 10])
        if gen.chance(0.3):
            start["signals"] = gen.pick(["pipe default", "interrupt ignored", "child ignored", "all blocked"])
        if gen.chance(0.5):
            start["import"] = {"seed": rng.randrange(1 << 30), "share": gen.pick([0.1, 0.3, 1.0]), "star": gen.chance(0.3)}
        if gen.chance(0.2):
            start["main"] = True
        if gen.chance(0.15):
            start["trace"] = gen.pick(["profile", "trace"])
        if gen.chance(0.3):
            start["gc"] = True
        start["site"] = gen.pick(("main",) * 3 + self.SITES)
        start["early"] = gen.chance(0.5)
        return start

    def generate(self, gen):
        rng = gen.rng
        source = P.Faults(gen)
        objs = [gen.creation() for _ in range(2)]
        ops = []
        exported = [P.exportable(gen, big=False) for _ in range(2)]
        for n in range(rng.randrange(8, 20)):
            roll = rng.random()
            if roll < 0.4:
                ops.append({"spec": gen.bad_creation() if gen.chance(0.25) else gen.creation()})
            elif roll < 0.75:
                on = rng.randrange(len(objs))
                ops.append({"on": on, "q": gen.call(objs[on], "d/f%d.out" % n)})
            else:
                on = rng.randrange(len(exported))
                kw = dict(gen.file_kw(), **exported[on][1])
                op = {"on": len(objs) + on, "q": {"k": "file", "path": "d/f%d.out" % n, "kw": kw}}
                if gen.chance(0.3):
                    op["faults"] = [source.soft()]
                ops.append(op)
        objs += [spec for spec, _ in exported]
        # every query and function in turn, alternately large
        _, more, calls = P.in_turn(gen, gen.index, 2)
        for call in calls:
            if "on" in call:
                call["on"] += len(objs)
                if call["q"]["k"] == "file":
                    call["q"]["path"] = "d/" + call["q"]["path"]
        return {"objs": objs + more, "ops": ops + calls, "start": self.start(gen)}

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        items = [
            {"spec": op["spec"]} if "q" not in op else {"spec": plan["objs"][op["on"]], "q": op["q"]} for op in plan["ops"]
        ]
        alone = R.baseline(items, root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        names, _ = R.in_child(lambda: WORLD.report(sorted(n for n in vars(W.fresh_package()) if not n.startswith("_"))), root)
        records, status = R.in_child(lambda: execute(plan, root), root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        if not any("import" in r for r in records):
            raise W.HarnessError("the process did not start")
        start = plan["start"]
        for condition in conditions(start):
            result["faults"][condition] = 1
        where = "in a process started with %s" % json.dumps(start, sort_keys=True)
        made = []
        for record in records:
            if "import" in record:
                if record["import"][0] == "exc":
                    result["violations"].append("the import %s: failed with %s" % (where, O.short(record["import"], 300)))
                for note in record["notes"]:
                    result["violations"].append("the import %s: %s" % (where, note))
            elif "names" in record:
                missing = sorted(set(names[0]) - set(record["names"]))
                if missing:
                    result["violations"].append("the package %s: lacks %s" % (where, missing[:5]))
            elif "fired" in record:
                kind = "storage " + plan["ops"][record["fired"]]["faults"][0]["kind"]
                result["faults"][kind] = result["faults"].get(kind, 0) + 1
            elif "k" in record:
                op = plan["ops"][record["k"]]
                result["calls"] += 1
                text = "call %d (%s) %s" % (record["k"], P.describe(dict(op, do="get" if "q" in op else "new")), where)
                P.compare(result, text, record["out"], alone[record["k"]]["out"])
                for note in record["notes"]:
                    result["violations"].append("%s: %s" % (text, note))
                made.append([op["spec"]["fn"] if "q" not in op else op["q"]["k"], P.shape(record["out"])])
        if not any("done" in r for r in records) and not result["violations"]:
            result["violations"].append("the process %s: ended in the middle of its calls" % where)
        for call in made:
            result["sig"].append(P.sha([conditions(start), call]))
        return result

    def shrink_candidates(self, plan):
        yield from super().shrink_candidates(plan)
        for name in sorted(plan["start"]):
            if name != "hash":
                yield dict(plan, start={k: v for k, v in plan["start"].items() if k != name})


def conditions(start):
    """Short names of the conditions."""
    names = []
    for key, value in sorted(start.items()):
        if key == "env":
            names.append("environment " + (" ".join(sorted(value)) or "empty"))
        elif key == "streams":
            names.extend("stream %d %s" % (n, kind) for n, kind in enumerate(value) if kind != "null")
        elif key in ("optimise", "options", "cwd", "signals", "trace", "site"):
            names.append("%s %s" % (key, value if isinstance(value, str) else " ".join(value)))
        elif key == "early":
            names.extend(["imported elsewhere"] if value else [])
        elif key == "import":
            names.append("import by parts" + (" and star" if value["star"] else ""))
        else:
            names.append({"hash": "hash seed", "fds": "few descriptors", "main": "no main file", "gc": "collector on"}.get(key, key))
    return names


def stream(kind, number):
    """Puts a standard stream of a kind in place."""
    if kind == "closed":
        os.close(number)
        return
    if kind == "broken":
        reader, writer = os.pipe()
        used = writer if number else reader
        os.close(reader if number else writer)
    else:
        used = os.open("/dev/full" if kind == "full" and number else "/dev/null", os.O_RDWR)
    os.dup2(used, number)
    if used != number:
        os.close(used)


def execute(plan, root):
    """Becomes a newly started interpreter (runs in a fork of the simulator)."""
    start = plan["start"]
    path = os.path.join(root, "plan")
    with open(path, "w") as handle:
        json.dump(plan, handle)
    os.makedirs(os.path.join(root, "d"))
    env = dict(
        start.get("env", {"LANG": "C.UTF-8", "HOME": os.path.join(root, "tmp"), "TMPDIR": os.path.join(root, "tmp"), "PATH": os.environ["PATH"]}),
        LD_PRELOAD=os.environ["LD_PRELOAD"],
        SIM_SHIM=os.environ["SIM_SHIM"],
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        PYTHONHASHSEED=str(start["hash"]),
    )
    command = [PYTHON, "-B", "-s"] + [o for o in [start.get("optimise")] if o] + start.get("options", [])
    command += [LAUNCH, path, root, str(WORLD.report_fd)]
    os.set_inheritable(WORLD.report_fd, True)
    where = start.get("cwd")
    if where == "/":
        os.chdir("/")
    elif where:
        place = os.path.join(root, "tmp", "a bé %s \U0001f40d" if where == "odd" else "gone")
        os.makedirs(place)
        os.chdir(place)
        if where == "gone":
            os.rmdir(place)
    if "umask" in start:
        os.umask(start["umask"])
    signals = start.get("signals")
    signal.signal(signal.SIGPIPE, signal.SIG_DFL if signals == "pipe default" else signal.SIG_IGN)
    if signals == "interrupt ignored":
        signal.signal(signal.SIGINT, signal.SIG_IGN)
    elif signals == "child ignored":
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    elif signals == "all blocked":
        signal.pthread_sigmask(signal.SIG_BLOCK, {signal.SIGTERM, signal.SIGHUP, signal.SIGINT, signal.SIGALRM, signal.SIGCHLD})
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    for number, kind in enumerate(start.get("streams", ["null"] * 3)):
        stream(kind, number)
    os.execve(PYTHON, command, env)


ALL = {"C18": C18}
