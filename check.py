"""
Decides one property by simulated runs.

    check.py PROPERTY              explore (VERIF_SEED, VERIF_TIER)
    check.py --replay FILE         repeat a recorded violation
    check.py --setup               compile the storage seam once, to show that it builds

Exit status: 0 held, 1 violated, 2 error of the check itself.
"""
import ctypes
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
LIMIT = {"quick": 840.0, "thorough": 6 * 3600.0}
MINIMISE_SECONDS = 60.0
ADDR_NO_RANDOMIZE = 0x0040000


class CheckError(Exception):
    pass


def fixed_addresses():
    """Same addresses in every worker: object identities become repeatable."""
    ctypes.CDLL(None).personality(ADDR_NO_RANDOMIZE)


class Session:
    """Scratch directory, compiled seam and worker processes of one invocation."""

    def __init__(self, seed):
        self.scratch = tempfile.mkdtemp(prefix="verif-sim-", dir="/tmp")
        self.children = []
        shim = os.path.join(self.scratch, "shim.so")
        done = subprocess.run(
            ["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(HERE, "sim", "shim.c"), "-ldl"],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
        )
        if done.returncode:
            raise CheckError("the storage seam does not compile: " + done.stdout.decode())
        self.env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "LD_PRELOAD": shim,
            "SIM_SHIM": shim,
            "PYTHONPATH": "/repo",
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONHASHSEED": str(seed % 4294967295),
            "OPENBLAS_NUM_THREADS": "1",
            "OMP_NUM_THREADS": "1",
            "LANG": "C.UTF-8",
            "HOME": self.scratch,
            "TMPDIR": self.scratch,
        }

    def start(self, *arguments):
        log = open(os.path.join(self.scratch, "log%d" % len(self.children)), "wb")
        child = subprocess.Popen(
            [PYTHON, "-W", "ignore", "-s", os.path.join(HERE, "sim", "worker.py")] + [str(a) for a in arguments],
            cwd=self.scratch,
            env=self.env,
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=log,
            preexec_fn=fixed_addresses,
            start_new_session=True,
        )
        log.close()
        child.log = log.name
        child.pending = b""
        self.children.append(child)
        return child

    def ask(self, limit, *arguments):
        """One worker, one answer."""
        child = self.start(*arguments)
        for _, record in self.answers([child], limit):
            if "error" in record:
                raise CheckError(record["error"])
            return record
        raise CheckError("worker gave no answer: " + self.tail(child))

    def answers(self, children, limit):
        until = time.monotonic() + limit
        left = {c.stdout.fileno(): c for c in children}
        while left:
            ready, _, _ = select.select(list(left), [], [], max(0.0, until - time.monotonic()))
            if not ready:
                raise CheckError("out of time")
            for fd in ready:
                child = left[fd]
                data = os.read(fd, 1 << 20)
                if not data:
                    del left[fd]
                    if child.wait() != 0:
                        raise CheckError("worker failed: " + self.tail(child))
                    continue
                child.pending += data
                *lines, child.pending = child.pending.split(b"\n")
                for line in lines:
                    yield child, json.loads(line.decode())

    def tail(self, child):
        with open(child.log, "rb") as handle:
            return handle.read()[-2000:].decode("utf-8", "replace")

    def close(self):
        for child in self.children:
            if child.poll() is None:
                try:
                    os.killpg(child.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                child.wait()
            child.stdout.close()
        if "/verif-sim-" in self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)


def info(ident):
    """Static facts about a property, from a worker-free import."""
    sys.path.insert(0, HERE)
    from sim import catalogue

    return catalogue.FACTS[ident]


def explore(session, ident, seed, tier, facts):
    total = int(os.environ.get("VERIF_RUNS", facts["runs"][tier]))
    children = [
        session.start("explore", ident, seed, w, WORKERS, total, session.scratch) for w in range(WORKERS)
    ]
    state = {
        "runs": 0,
        "calls": 0,
        "faults": {},
        "signatures": set(),
        "samples": [],
        "extra": {},
        "violation": None,
        "digests": {},
        "finished": 0,
    }
    known = ("index", "digest", "violations", "calls", "faults", "sig", "plan", "original", "sample", "trail")
    for _, record in session.answers(children, LIMIT[tier]):
        if "error" in record:
            raise CheckError(record["error"])
        if "finished" in record:
            state["finished"] += 1
            continue
        state["runs"] += 1
        state["calls"] += record["calls"]
        for kind, count in record["faults"].items():
            state["faults"][kind] = state["faults"].get(kind, 0) + count
        state["signatures"].update(record["sig"])
        state["digests"][record["index"]] = record["digest"]
        for key, value in record.items():
            if key not in known and isinstance(value, (int, float)):
                state["extra"][key] = state["extra"].get(key, 0) + value
        if "sample" in record:
            state["samples"].append({"run": record["index"], "plan": record["sample"]})
        if record["violations"]:
            worst = state["violation"]
            if worst is None or record["index"] < worst["index"]:
                state["violation"] = record
                stop = os.path.join(session.scratch, "stop")
                temporary = stop + ".new"
                os.symlink(str(record["index"]), temporary)
                os.replace(temporary, stop)
    if state["finished"] != WORKERS:
        raise CheckError("a worker ended early")
    return state


def report_violation(session, ident, seed, tier, record):
    """Minimises, confirms in a new process and writes the replay file."""
    plans = [record["plan"], record["original"]]
    paths = []
    for k, plan in enumerate(plans):
        path = os.path.join(session.scratch, "plan%d.json" % k)
        with open(path, "w") as handle:
            json.dump(plan, handle)
        paths.append(path)
    final = None
    tried = 0
    for path in paths:
        answer = session.ask(MINIMISE_SECONDS + 300, "minimise", ident, path, session.scratch, MINIMISE_SECONDS)
        tried += answer["tried"]
        if answer["result"]:
            final = answer["result"]["plan"]
            break
    candidates = ([final] if final else []) + plans
    confirmed = None
    for plan in candidates:
        path = os.path.join(session.scratch, "confirm.json")
        with open(path, "w") as handle:
            json.dump(plan, handle)
        for _ in range(2):
            answer = session.ask(600, "judge", ident, path, session.scratch)
            if answer["violations"]:
                confirmed = (plan, answer["violations"])
                break
        if confirmed:
            break
    if not confirmed:
        raise CheckError(
            "run %d reported %r but it cannot be repeated" % (record["index"], record["violations"][:2])
        )
    plan, texts = confirmed
    replay = {
        "property": ident,
        "seed": seed,
        "tier": tier,
        "run": record["index"],
        "first_seen": record["violations"][:5],
        "violations": texts[:5],
        "minimisation_runs": tried,
        "plan": plan,
    }
    name = "%s-%d-%d.json" % (ident, seed, record["index"])
    directory = os.path.join(HERE, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, name)
    with open(path, "w") as handle:
        json.dump(replay, handle, indent=1)
    for text in texts[:5]:
        print("  " + text)
    print("VIOLATION property=%s replay=%s" % (ident, path))
    return len(texts)


def write_evidence(ident, seed, tier, facts, state, wall, violations):
    digest = hashlib.sha256(
        "".join(state["digests"][k] for k in sorted(state["digests"])).encode()
    ).hexdigest()[:16]
    coverage = {
        "evaluations": state["runs"],
        "distinct_nontrivial": len(state["signatures"]),
        "rule": facts["rule"],
        "samples": sorted(state["samples"], key=lambda s: s["run"]),
        "calls_of_the_package": state["calls"],
        "runs_and_seeds_per_hour": int(3600 * state["runs"] / max(wall, 1e-9)),
        "simulated_time": facts["time"],
        "faults_injected": dict(sorted(state["faults"].items())),
        "components": facts["components"],
        "digest_of_all_runs": digest,
        "workers": WORKERS,
    }
    coverage.update({k: v for k, v in sorted(state["extra"].items())})
    evidence = {
        "property": ident,
        "tier": tier,
        "seed": seed,
        "level": facts["level"],
        "coverage": coverage,
        "assumptions": facts["assumptions"],
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    directory = os.path.join(HERE, "evidence")
    os.makedirs(directory, exist_ok=True)
    temporary = os.path.join(directory, ".%s.%d" % (ident, os.getpid()))
    with open(temporary, "w") as handle:
        json.dump(evidence, handle, indent=1)
    os.replace(temporary, os.path.join(directory, ident + ".json"))


def check(ident):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    facts = info(ident)
    begin = time.monotonic()
    session = Session(seed)
    try:
        state = explore(session, ident, seed, tier, facts)
        violations = 0
        if state["violation"]:
            violations = report_violation(session, ident, seed, tier, state["violation"])
        write_evidence(ident, seed, tier, facts, state, time.monotonic() - begin, violations)
    finally:
        session.close()
    if violations:
        return 1
    print(
        "%s held: %d runs, %d calls, %d faults, %d distinct, %.1f s"
        % (
            ident,
            state["runs"],
            state["calls"],
            sum(state["faults"].values()),
            len(state["signatures"]),
            time.monotonic() - begin,
        )
    )
    return 0


def replay(path):
    with open(path) as handle:
        recorded = json.load(handle)
    ident = recorded["property"]
    session = Session(recorded["seed"])
    try:
        plan = os.path.join(session.scratch, "plan.json")
        with open(plan, "w") as handle:
            json.dump(recorded["plan"], handle)
        answer = session.ask(600, "judge", ident, plan, session.scratch)
    finally:
        session.close()
    if not answer["violations"]:
        print("%s: the recorded plan no longer violates the property" % ident)
        return 0
    for text in answer["violations"][:5]:
        print("  " + text)
    same = answer["violations"][:5] == recorded["violations"]
    print("  identical to the recorded failure: %s" % ("yes" if same else "no"))
    print("VIOLATION property=%s replay=%s" % (ident, os.path.abspath(path)))
    return 1


def main(arguments):
    try:
        if arguments == ["--setup"]:
            Session(1).close()
            return 0
        if len(arguments) == 2 and arguments[0] == "--replay":
            return replay(arguments[1])
        if len(arguments) == 1 and not arguments[0].startswith("-"):
            return check(arguments[0])
        print(__doc__)
        return 2
    except CheckError as error:
        print("ERROR of the check: %s" % error)
        return 2


if __name__ == "__main__":
    try:
        status = main(sys.argv[1:])
    except Exception:
        import traceback

        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    sys.exit(status)
