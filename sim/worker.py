"""
One simulator process.  It loads the interpreter, NumPy and the package once and forks a
child per simulated run.  Started by check.py with the storage seam preloaded:

    worker.py explore  PROPERTY SEED FIRST STRIDE END SCRATCH
    worker.py judge    PROPERTY PLANFILE SCRATCH        (replay)
    worker.py minimise PROPERTY PLANFILE SCRATCH SECONDS
"""
import gc
import hashlib
import itertools
import json
import os
import random
import re
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import life as L  # noqa: E402
from sim import ops as O  # noqa: E402
from sim import props as P  # noqa: E402
from sim import runs as R  # noqa: E402
from sim import world as W  # noqa: E402


def emit(record):
    data = (json.dumps(record) + "\n").encode()
    while data:
        data = data[os.write(1, data) :]


def plan_for(prop, seed, index):
    """The whole run is a function of these three."""
    key = hashlib.sha256(("%s/%d/%d" % (prop.ident, seed, index)).encode()).digest()
    gen = O.Gen(random.Random(int.from_bytes(key[:8], "big")))
    gen.index = index
    gen.large = gen.chance(0.12)
    plan = L.add_prelude(prop.ident, prop.generate(gen), gen)
    return P.add_surroundings(prop.ident, plan, gen)


def clean(text, root):
    text = text.replace(root + "/", "").replace(root, "<root>")
    if "left behind" in text or "other files" in text:
        text = re.sub(r"[0-9]{3,}", "#", text)  # such names may contain the number of a process
    return text


def judged(prop, plan, root):
    result = prop.judge(plan, root)
    result["violations"] = [clean(v, root) for v in result["violations"]]
    return result


def stopped_at(scratch):
    try:
        return int(os.readlink(os.path.join(scratch, "stop")))
    except OSError:
        return None


def explore(prop, seed, first, stride, end, scratch, root):
    for count, index in enumerate(range(first, end, stride)):
        stop = stopped_at(scratch)
        if stop is not None and index > stop:
            break
        plan = plan_for(prop, seed, index)
        try:
            result = judged(prop, plan, root)
        except W.HarnessError as error:
            emit({"index": index, "error": str(error)})
            break
        record = {k: v for k, v in result.items() if k != "plan"}
        record["index"] = index
        record["digest"] = R.digest([result["violations"], result["calls"], result["faults"], result["sig"]])
        if result["violations"]:
            record["plan"] = result["plan"]
            record["original"] = plan
        elif index < 2:
            record["sample"] = plan
        emit(record)
        if count % 40 == 39:
            gc.collect()
    emit({"finished": first})


def kinds(violations):
    """The kinds of the complaints: reduction must not trade one kind for another."""
    return {" ".join(re.findall(r"[a-zA-Z]+", text.split("): ")[-1])[:2]) for text in violations}


def minimise(prop, plan, root, seconds):
    """Greedy reduction; every accepted step is a plan that itself violates the property."""
    until = R._monotonic() + seconds
    best = judged(prop, plan, root)
    tried = 1
    if not best["violations"]:
        return None, tried
    best["plan"] = best.get("plan", plan)
    wanted = kinds(best["violations"])
    progress = True
    while progress and R._monotonic() < until:
        progress = False
        for candidate in itertools.chain(L.shorter(best["plan"]), prop.shrink_candidates(best["plan"])):
            if R._monotonic() >= until:
                break
            tried += 1
            if tried % 40 == 0:
                gc.collect()
            try:
                result = judged(prop, candidate, root)
            except W.HarnessError:
                continue
            if kinds(result["violations"]) & wanted:
                result.setdefault("plan", candidate)
                if len(json.dumps(result["plan"])) < len(json.dumps(best["plan"])):
                    best = result
                    progress = True
                    break
    return best, tried


def main():
    mode, ident = sys.argv[1:3]
    W.WORLD.disk = W.Disk()
    W.install()
    from sim import imports, parties, process, props, reload, starts

    prop = dict(props.ALL, **process.ALL, **parties.ALL, **starts.ALL, **imports.ALL, **reload.ALL)[ident]()
    W.warm_package()
    W.warm_abortable()
    if mode == "explore":
        seed, first, stride, end = (int(x) for x in sys.argv[3:7])
        scratch = sys.argv[7]
        explore(prop, seed, first, stride, end, scratch, os.path.join(scratch, "w%d" % first))
        return
    with open(sys.argv[3]) as handle:
        plan = json.load(handle)
    root = os.path.join(sys.argv[4], "w0")
    try:
        if mode == "judge":
            result = judged(prop, plan, root)
            emit({"violations": result["violations"], "plan": result["plan"]})
        else:
            result, tried = minimise(prop, plan, root, float(sys.argv[5]))
            emit({"tried": tried, "result": result})
    except W.HarnessError as error:
        emit({"error": str(error)})


if __name__ == "__main__":
    try:
        main()
    except Exception:
        emit({"error": traceback.format_exc()})
        sys.exit(3)
