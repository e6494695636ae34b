"""
One class per property: generation of plans, execution, oracle.

judge() returns a dict: violations (list of text), calls, faults {kind: fired},
sig (signature of what the run reached, for counting distinct runs), plan (the plan with
everything resolved, so that it can be replayed), and optionally more counters.
"""
import copy
import errno
import hashlib
import json
import math
import os
import random

from . import model as M
from . import ops as O
from . import runs as R
from . import world as W

PI = math.pi
DIRTY = ("open", "write", "rename", "unlink", "trunc", "meta")


def sha(value):
    return hashlib.sha1(json.dumps(value, sort_keys=True).encode()).hexdigest()[:16]


def raw(spec):
    """Plain lists of a data specification (see ops.data_of)."""
    return {k: O.plain(v) for k, v in spec["kw"].items()}


def rates_of(kw):
    return (
        O.val(kw.get("maximum_rabi_rate", 2 * PI)),
        O.val(kw.get("maximum_detuning_rate", 2 * PI)),
    )


def feasible(seq, rates):
    """True, False, or None when rounding or a tolerance could decide."""
    answers = {
        M.realise(seq, rates[0] * f, rates[1] * f) is not None for f in (0.97, 1.0, 1.03)
    }
    return answers.pop() if len(answers) == 1 else None


def names_ok(kw):
    return (
        kw.get("file_format", O.FORMAT) == O.FORMAT
        and kw.get("file_type", "CSV") in ("CSV", "JSON")
        and kw.get("coordinates", "cylindrical") in ("cartesian", "cylindrical")
        and isinstance(kw.get("file_type", "CSV"), str)
    )


def should_reject(data, kw):
    if not names_ok(kw):
        return True
    if data["fn"] == "DrivenControl":
        return False
    answer = feasible(raw(data), rates_of(kw))
    return None if answer is None else not answer


def document_complaint(text, data, kw, equivalent=None):
    """Complaint about the document an export of data must have left."""
    kind = kw.get("file_type", "CSV")
    coordinates = kw.get("coordinates", "cylindrical")
    if data["fn"] == "DrivenControl":
        return M.expect_control(text, raw(data), kind, coordinates)
    complaint = M.expect_sequence(text, raw(data), rates_of(kw), kind, coordinates)
    if complaint is None and isinstance(equivalent, dict):
        complaint = M.expect_control(text, raw(equivalent), kind, coordinates)
        if complaint:
            complaint = "differs from the sequence's driven control: " + complaint
    return complaint


class Faults:
    """Generation of storage faults."""

    OPEN_ERR = (
        errno.EACCES,
        errno.EMFILE,
        errno.EROFS,
        errno.ENOSPC,
        errno.EIO,
        errno.EPERM,
        errno.ENOENT,
        errno.EISDIR,
        errno.ENOTDIR,
        errno.ENAMETOOLONG,
        errno.ENFILE,
        errno.ETXTBSY,
        errno.EBUSY,
        errno.ESTALE,
    )
    WRITE_ERR = (errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EPIPE, errno.ESTALE, errno.EINVAL)
    CLOSE_ERR = (errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.ESTALE)
    OTHER_ERR = (errno.EIO, errno.EROFS, errno.EACCES)

    def __init__(self, gen):
        self.gen = gen
        self.rng = gen.rng

    def soft(self):
        g = self.gen
        if g.chance(0.6):
            sticky = g.chance(0.4)
            return {
                "kind": "short",
                "ops": W.WRITE,
                "ordinal": self.rng.randrange(0, 5),
                "arg": g.pick([150, 500, 900]) if sticky else g.pick([0, 1, 250, 500, 900, 999]),
                "sticky": sticky,
            }
        return {"kind": "eintr", "ops": W.OPEN | W.WRITE, "ordinal": self.rng.randrange(0, 5)}

    def hard(self, interrupt=True):
        g = self.gen
        roll = self.rng.random()
        sticky = g.chance(0.4)
        if interrupt and roll < 0.18:
            return [
                {
                    "kind": "sigint",
                    "ops": W.OPEN | W.WRITE | W.CLOSE | W.SYNC | W.RENAME,
                    "ordinal": self.rng.randrange(0, 5),
                }
            ]
        if roll < 0.35:
            return [{"kind": "err", "ops": W.OPEN, "errno": g.pick(self.OPEN_ERR), "sticky": sticky}]
        if roll < 0.6:
            return [
                {
                    "kind": "err",
                    "ops": W.WRITE,
                    "ordinal": self.rng.randrange(0, 5),
                    "errno": g.pick(self.WRITE_ERR),
                    "sticky": sticky,
                }
            ]
        if roll < 0.75:
            # the disk fills up in the middle of a write
            k = self.rng.randrange(0, 4)
            return [
                {"kind": "short", "ops": W.WRITE, "ordinal": k, "arg": g.pick([0, 300, 800])},
                {"kind": "err", "ops": W.WRITE, "ordinal": k + 1, "errno": errno.ENOSPC, "sticky": True},
            ]
        if roll < 0.9:
            return [{"kind": "err", "ops": W.CLOSE, "errno": g.pick(self.CLOSE_ERR)}]
        return [
            {
                "kind": "err",
                "ops": W.SYNC | W.RENAME | W.TRUNC,
                "errno": g.pick(self.OTHER_ERR),
                "sticky": sticky,
            }
        ]

    def some(self, interrupt=True):
        roll = self.rng.random()
        if roll < 0.35:
            return []
        if roll < 0.6:
            return [self.soft() for _ in range(self.rng.randrange(1, 3))]
        faults = self.hard(interrupt)
        if self.gen.chance(0.3):
            faults.append(self.soft())
        return faults


CONTENTS = (
    ["empty", 0],
    ["text", 1],
    ["text", 3000],
    ["digits", 40],
    ["digits", 4000],
    ["json", 300],
)


def exportable(gen, big=True):
    """Specification of an object together with rates that allow its export."""
    roll = gen.rng.random()
    if roll < 0.45:
        return gen.control(big=big), {}
    if roll < 0.7:
        spec = gen.sequence(size=gen.rng.randrange(30, 90) if big and gen.chance(0.1) else None)
        rabi, det = gen.rates_for(spec)
        return spec, {"maximum_rabi_rate": rabi, "maximum_detuning_rate": det}
    if roll < 0.82:
        return gen.driven_factory(), {}
    if roll < 0.86:
        return gen.gaussian(), {}
    spec = gen.sequence_factory()
    duration = O.plain(spec["kw"]["duration"])
    rate = gen.pick([1e4, 1e5]) / duration
    if gen.chance(0.15):
        # the documented default rates are fine for slow sequences
        spec["kw"]["duration"] = 1e4
        return spec, {}
    return spec, {"maximum_rabi_rate": rate, "maximum_detuning_rate": rate}


class Property:
    ident = None

    def stuck(self, records, status):
        """Violation text if the child ended abnormally, else None."""
        for record in records:
            if "stuck" in record:
                return record["stuck"]
        if status == W.EXIT_CAP:
            return "does not finish: more than 200000 storage operations"
        if status == "timeout":
            return "does not finish: more than %d seconds" % R.WALL_LIMIT
        if status == "starved":
            raise W.HarnessError("a run exceeded the wall clock limit")
        if status != 0:
            if isinstance(status, int) and status < 0:
                raise W.HarnessError("a run was killed by signal %d" % -status)
            if status not in (W.EXIT_CRASH,):
                raise W.HarnessError("a run ended with status %r" % (status,))
        return None

    def shrink_candidates(self, plan):
        """Smaller plans, most promising first."""
        for key in ("ops",):
            if key in plan:
                n = len(plan[key])
                size = n
                while size >= 1:
                    for start in range(0, n, size):
                        rest = plan[key][:start] + plan[key][start + size :]
                        if rest and len(rest) < n:
                            yield dict(plan, **{key: rest})
                    size //= 2
        for i, op in enumerate(plan.get("ops", [])):
            for j in range(len(op.get("faults", []))):
                ops = copy.deepcopy(plan["ops"])
                del ops[i]["faults"][j]
                yield dict(plan, ops=ops)
            for times in (0, op.get("times", 0) // 2, op.get("times", 0) - 1):
                if 0 <= times < op.get("times", 0):
                    yield dict(plan, ops=plan["ops"][:i] + [dict(op, times=times)] + plan["ops"][i + 1 :])
        if "import" in plan:
            yield {k: v for k, v in plan.items() if k != "import"}
        if plan.get("files"):
            dirs = {os.path.dirname(p) for p in plan["files"]} - {""}
            yield dict(plan, files={}, dirs=sorted(dirs | set(plan.get("dirs", []))))
        for key in ("ambient",):
            for name in list(plan.get(key, {})):
                value = dict(plan[key])
                del value[name]
                yield dict(plan, **{key: value})
        for i in range(len(plan.get("objs", []))):
            spec = simpler(plan["objs"][i])
            for candidate in spec:
                objs = list(plan["objs"])
                objs[i] = candidate
                yield dict(plan, objs=objs)


def simpler(spec):
    """Smaller objects of the same kind."""
    kw = spec["kw"]
    arrays = [k for k in kw if isinstance(O.plain(kw[k]), list)]
    lengths = {len(O.plain(kw[k])) for k in arrays}
    if arrays and len(lengths) == 1:
        n = lengths.pop()
        for size in sorted({1, 2, n // 2, n - 1}):
            if 0 < size < n:
                new = copy.deepcopy(spec)
                for k in arrays:
                    values = O.plain(kw[k])[:size]
                    new["kw"][k] = values if isinstance(kw[k], list) else {list(kw[k])[0]: values}
                yield new
    if kw.get("name") is not None:
        new = copy.deepcopy(spec)
        new["kw"]["name"] = None
        yield new


# ------------------------------------------------------------------------- C01


class C01(Property):
    ident = "C01"
    # names are taken literally
    STRANGE = ("~", "~x.csv", "$HOME", "${PATH}.csv", "%41%s.csv", " x ", "X.CSV", "x.csv ", ".x", "-x", "x.", "x.tar.gz", "a\nb", "a\\b", "*?[x]", "x.JSON", "n" * 150)

    def generate(self, gen):
        objs, rates = [], []
        for _ in range(gen.rng.randrange(1, 4)):
            spec, rate = exportable(gen)
            objs.append(spec)
            rates.append(rate)
        paths = ["x.csv", "sub/y.json", "sub/z", "sub/deep dir/ü.csv"][: gen.rng.randrange(1, 5)]
        if gen.chance(0.3):
            paths.append("sub/" + gen.pick(self.STRANGE))
        files = {}
        for path in paths:
            if gen.chance(0.6):
                files[path] = gen.pick(CONTENTS)
        faults = Faults(gen)
        ops = []
        for _ in range(gen.rng.randrange(1, 7)):
            k = gen.rng.randrange(len(objs))
            kw = dict(gen.file_kw(), **rates[k])
            q = {"k": "file", "path": gen.pick(paths), "kw": kw}
            op = {"do": "get", "on": "o%d" % k, "q": q, "storage": True, "faults": faults.some()}
            if gen.chance(0.2):
                # a relative name, resolved by the caller's working directory
                op["cwd"] = os.path.dirname(q["path"])
                q["given"] = os.path.basename(q["path"])
            ops.append(op)
        return {
            "objs": objs,
            "ops": ops,
            "files": files,
            "dirs": ["sub/deep dir"],
            "watch_live": False,
        }

    def judge(self, plan, root):
        records, status = R.run_history(plan, root)
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
        for record in records:
            if "out" not in record or "i" not in record:
                continue
            op = plan["ops"][record["i"]]
            kw = op["q"]["kw"]
            result["calls"] += 1
            count_faults(result, op, record)
            fired = any(record.get("fired", []))
            text = None
            if record["out"][0] == "file":
                text = document_complaint(
                    record["dest"], record["data"], kw, record.get("equivalent")
                )
                if text:
                    text = "export returned normally but " + text
            elif not fired:
                reject = should_reject(record["data"], kw)
                if reject is False:
                    text = "valid export on healthy storage raised %s" % O.short(record["out"])
            if text:
                result["violations"].append("op %d (%s): %s" % (record["i"], describe(op), text))
            if record["out"][0] == "file":
                count = len(O.plain(record["data"]["kw"]["azimuthal_angles"]))
                result["sig"].append(
                    sha(
                        [
                            kw.get("file_type"),
                            kw.get("coordinates"),
                            record["data"]["fn"],
                            min(count, 8) if count < 100 else "big%d" % (record["ops"]),
                            fired_kinds(op, record),
                            plan["files"].get(op["q"]["path"]),
                            raw(record["data"])["name"] is None,
                        ]
                    )
                )
        return result


def describe(op):
    if op["do"] == "new":
        return op["spec"]["fn"]
    q = op["q"]
    return q["k"] + (":" + q["p"] if "p" in q else "") + (" " + json.dumps(q["kw"])[:150] if q.get("kw") else "")


def fired_kinds(op, record):
    result = []
    for fault, fired in zip(op.get("faults", []), record.get("fired", [])):
        if fired:
            result.append([fault["kind"], fault["ops"], fault.get("errno"), fault.get("ordinal", 0), min(fired, 2)])
    return result


def count_faults(result, op, record):
    for fault, fired in zip(op.get("faults", []), record.get("fired", [])):
        if fired:
            key = fault["kind"] + ("" if fault["kind"] != "err" else ":" + errno.errorcode[fault["errno"]])
            result["faults"][key] = result["faults"].get(key, 0) + fired


# ------------------------------------------------------------------------- C02


class C02(Property):
    ident = "C02"

    def broken_sequence(self, gen):
        rng = gen.rng
        while True:
            kind = gen.pick(["rate", "negative", "both", "order", "overlap", "pair", "pair", "edge"])
            spec = gen.sequence(size=rng.randrange(1, 8) if gen.chance(0.8) else rng.randrange(8, 90))
            kw = spec["kw"]
            lists = {k: [float(x) for x in O.plain(kw[k])] for k in O.STORED_DDS}
            n = len(lists["offsets"])
            total = O.plain(kw["duration"])
            rabi, det = gen.rates_for(spec)
            i = rng.randrange(n)
            if kind == "rate":
                bad = gen.pick([0, 0.0, -1.0, -rabi, -1e-12])
                if gen.chance(0.3):
                    spec = gen.sequence(size=0)
                if gen.chance(0.5):
                    rabi = bad
                else:
                    det = bad
                return spec, rabi, det, kind
            if kind == "negative":
                lists["rabi_rotations"][i] = -gen.pick([PI, 0.5, 1e-3])
                lists["detuning_rotations"][i] = 0.0
            elif kind == "both":
                lists["rabi_rotations"][i] = gen.pick([PI, 0.3])
                lists["detuning_rotations"][i] = gen.pick([1, -1]) * gen.pick([PI, 0.2, 1e-3])
            elif kind == "order":
                if n < 2:
                    continue
                j = rng.randrange(n - 1)
                o = lists["offsets"]
                if gen.chance(0.5):
                    o[j], o[j + 1] = o[j + 1], o[j]
                else:
                    o[j + 1] = o[j]
                if gen.chance(0.3):
                    for i in (j, j + 1):
                        lists["rabi_rotations"][i] = lists["detuning_rotations"][i] = 0.0
                rabi = det = 1e6 * rabi
            elif kind == "pair":
                # one pulse reaches into the next, all others are apart
                if n < 2:
                    continue
                j = gen.pick([0, n - 2, rng.randrange(n - 1), rng.randrange(n - 1)])
                for i in (j, j + 1):
                    lists["rabi_rotations"][i], lists["detuning_rotations"][i] = gen.pick([(PI, 0.0), (0.0, PI), (0.0, -PI)])
                o = lists["offsets"]
                apart = (PI / max(rabi, det)) * rng.uniform(0.3, 0.9)
                if gen.chance(0.5):
                    o[j + 1] = o[j] + apart
                else:
                    o[j] = o[j + 1] - apart
                if any(b <= a for a, b in zip(o, o[1:])) or o[0] < 0 or o[-1] > total:
                    continue
            elif kind == "edge":
                # one pulse sticks out of the sequence at either end
                i = gen.pick([0, n - 1])
                lists["rabi_rotations"][i], lists["detuning_rotations"][i] = gen.pick(
                    [(PI, 0.0), (0.0, PI), (0.0, -PI)]
                )
                o = lists["offsets"]
                gap = total / (4.0 * n)
                o[i] = gap if i == 0 else total - gap
                if any(b <= a for a, b in zip(o, o[1:])):
                    continue
                rabi = det = PI / (gap * rng.uniform(2.6, 3.2))
            else:
                rabi, det = gen.rates_for(spec, feasible=False)
            for k in O.STORED_DDS:
                kw[k] = gen.container(lists[k])
            seq = dict(lists, duration=total, name=None)
            if feasible(seq, (rabi, det)) is False:
                return spec, rabi, det, kind

    def generate(self, gen):
        faults = Faults(gen)
        objs, ops, kinds = [], [], []
        paths = ["x.csv", "sub/y.json", "sub/z"]
        files = {p: gen.pick(CONTENTS) for p in paths if gen.chance(0.6)}
        # directories that do not exist, a file in the place of one
        paths = paths * 4 + ["gone/w.csv", "gone/deep/w.json", "sub/gone/w", "x.csv/w", "sub"]
        for _ in range(gen.rng.randrange(1, 7)):
            roll = gen.rng.random()
            if roll < 0.25:
                spec, rates = exportable(gen, big=False)
                kw = dict(gen.file_kw(), **rates)
            elif roll < 0.6:
                spec, rates = exportable(gen, big=False)
                kw = dict(gen.file_kw(), **rates)
                for bad in gen.rng.sample(sorted(gen.BAD_NAMES), gen.pick([1, 1, 1, 2])):
                    kw[bad] = gen.pick(gen.BAD_NAMES[bad])
            else:
                spec, rabi, det, _ = self.broken_sequence(gen)
                kw = dict(gen.file_kw(), maximum_rabi_rate=rabi, maximum_detuning_rate=det)
                if gen.chance(0.08):
                    kw["coordinates"] = "polar"
            objs.append(spec)
            ops.append(
                {
                    "do": "get",
                    "on": "o%d" % (len(objs) - 1),
                    "q": {"k": "file", "path": gen.pick(paths), "kw": kw},
                    "storage": True,
                    "faults": faults.some() if gen.chance(0.5) else [],
                }
            )
        return {"objs": objs, "ops": ops, "files": files, "dirs": ["sub"]}

    def judge(self, plan, root):
        records, status = R.run_history(plan, root)
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan, "rejected": 0}
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
        for record in records:
            if "out" not in record or "i" not in record:
                continue
            op = plan["ops"][record["i"]]
            kw = op["q"]["kw"]
            result["calls"] += 1
            count_faults(result, op, record)
            reject = should_reject(record["data"], kw)
            if not reject:
                continue
            result["rejected"] += 1
            text = None
            if record["out"][:2] != ["exc", "ArgumentsValueError"]:
                text = "ended with %s instead of ArgumentsValueError" % O.short(record["out"], 200)
            elif record["tree"]:
                text = "was rejected but %s" % ", ".join(record["tree"])
            elif touched(record["log"]):
                text = "was rejected but touched storage: %s" % "; ".join(touched(record["log"])[:4])
            elif record.get("outside"):
                text = "was rejected but touched other files: %s" % record["outside"]
            if text:
                result["violations"].append("op %d (%s): %s" % (record["i"], describe(op), text))
            data = raw(record["data"])
            result["sig"].append(
                sha(
                    [
                        {k: kw[k] for k in ("file_format", "file_type", "coordinates") if k in kw},
                        record["data"]["fn"],
                        reason(data, kw) if record["data"]["fn"] != "DrivenControl" else "",
                        int(math.floor(math.log10(data["duration"]))) if "duration" in data else 0,
                        plan["files"].get(op["q"]["path"]),
                        [f["kind"] for f in op.get("faults", [])],
                    ]
                )
            )
        return result


def reason(data, kw):
    rates = rates_of(kw)
    return [
        rates[0] > 0,
        rates[1] > 0,
        any(r < 0 for r in data["rabi_rotations"]),
        [
            [i, d > 0]
            for i, (r, d) in enumerate(zip(data["rabi_rotations"], data["detuning_rotations"]))
            if r and d
        ],
        any(b <= a for a, b in zip(data["offsets"], data["offsets"][1:])),
        len(data["offsets"]),
    ]


def touched(log):
    """Storage calls that create, truncate, modify or remove."""
    result = []
    for line in log:
        word = line.split(" ", 1)[0]
        if "errno" in line or "EINTR" in line:
            result.append(line)
        elif word == "open" and ("T" in line.rsplit(" -> ", 1)[0][-4:] or "X" in line.rsplit(" -> ", 1)[0][-4:]):
            result.append(line)
        elif word in ("write", "rename", "unlink", "trunc"):
            result.append(line)
    return result


# ------------------------------------------------------------------------- C03


class C03(Property):
    ident = "C03"

    def generate(self, gen):
        spec, rates = exportable(gen)
        kw = dict(gen.file_kw(explicit=True), **rates)
        q = {"k": "file", "path": "sub/x", "kw": kw}
        neighbours = {"sub/neighbour.csv": ["digits", 40], "other.json": ["json", 20]}
        probe = {
            "objs": [spec],
            "ops": [{"do": "get", "on": "o0", "q": q, "storage": True}],
            "files": neighbours,
            "watch_live": False,
        }
        return {"probe": probe, "seed": gen.rng.randrange(1 << 30), "objs": [spec], "files": neighbours}

    def expand(self, plan, root):
        """Enumerates the fault points of the export in the plan."""
        import random

        gen = O.Gen(random.Random(plan["seed"]))
        records, status = R.run_history(plan["probe"], root)
        record = next((r for r in records if "ops" in r), None)
        if record is None or status != 0:
            return dict(plan, ops=[], probe=None)
        template = plan["probe"]["ops"][0]
        every = W.OPEN | W.WRITE | W.CLOSE | W.SYNC | W.RENAME | W.TRUNC
        ops = []
        points = list(range(min(record["ops"], 40)))
        if len(points) > 12:
            points = points[:4] + sorted(gen.rng.sample(points[4:-3], 5)) + points[-3:]
        for point in points:
            for kind in ("err", "sigint", "full", "eintr"):
                if kind == "err":
                    faults = [
                        {
                            "kind": "err",
                            "ops": every,
                            "ordinal": point,
                            "errno": gen.pick(Faults.WRITE_ERR + Faults.OPEN_ERR),
                            "sticky": gen.chance(0.4),
                        }
                    ]
                elif kind == "sigint":
                    faults = [{"kind": "sigint", "ops": every, "ordinal": point}]
                elif kind == "eintr":
                    faults = [{"kind": "eintr", "ops": every, "ordinal": point}]
                else:
                    faults = [
                        {"kind": "short", "ops": W.WRITE, "ordinal": max(0, point - 1), "arg": gen.pick([0, 400, 999])},
                        {
                            "kind": "err",
                            "ops": W.WRITE,
                            "ordinal": max(0, point - 1) + 1,
                            "errno": errno.ENOSPC,
                            "sticky": True,
                        },
                    ]
                op = dict(template, faults=faults, retry=True, ignore=[template["q"]["path"]])
                op["reset"] = gen.pick(["absent"] + list(CONTENTS))
                ops.append(op)
        several = Faults(gen)
        for _ in range(4):
            faults = several.hard() + several.hard()
            ops.append(
                dict(template, faults=faults, retry=True, ignore=[template["q"]["path"]], reset=gen.pick(CONTENTS))
            )
        gen.rng.shuffle(ops)
        expanded = {"objs": plan["objs"], "files": plan["files"], "ops": ops, "watch_live": True}
        if "prelude" in plan:
            expanded["prelude"] = plan["prelude"]
        return expanded

    def judge(self, plan, root):
        if plan.get("probe"):
            plan = self.expand(plan, root)
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan, "failed": 0}
        if not plan["ops"]:
            return result
        records, status = R.run_history(plan, root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
        for record in records:
            if "out" not in record or "i" not in record:
                continue
            op = plan["ops"][record["i"]]
            kw = op["q"]["kw"]
            result["calls"] += 1
            if should_reject(record["data"], kw) is not False:
                continue
            count_faults(result, op, record)
            fired = fired_kinds(op, record)
            for text in self.complaints(op, record, kw, fired):
                result["violations"].append(
                    "op %d (%s; faults %s): %s" % (record["i"], describe(op), fired, text)
                )
            if fired:
                if record["out"][0] == "exc":
                    result["failed"] += 1
                result["sig"].append(
                    sha([fired, kw["file_type"], kw["coordinates"], record["data"]["fn"], record["ops"], record["log"][-1:]])
                )
        return result

    def complaints(self, op, record, kw, fired):
        out = record["out"]
        if out[0] == "file":
            text = document_complaint(record["dest"], record["data"], kw, record.get("equivalent"))
            if text:
                yield "the failure was not reported: export returned normally but " + text
        elif out[0] == "exc":
            allowed = set()
            for kind, _, number, _, _ in fired:
                if kind == "sigint":
                    allowed.add(("KeyboardInterrupt", None))
                elif kind == "err":
                    allowed.add(("OSError", str(number)))
                elif kind == "eintr":
                    allowed.add(("OSError", str(errno.EINTR)))
            name = out[1]
            if name in OS_ERRORS:
                name = "OSError"
            if (name, out[2]) not in allowed:
                yield "raised %s instead of the storage error" % O.short(out, 200)
            retry = record.get("retry")
            if retry is not None:
                if retry[0] != "file":
                    yield "a repetition on healthy storage raised %s" % O.short(retry, 200)
                else:
                    text = document_complaint(retry[1], record["data"], kw)
                    if text:
                        yield "after a repetition on healthy storage " + text
        if record["leaked"]:
            yield "%d files were left open" % record["leaked"]
        if record["tree"]:
            yield "other files were affected: " + ", ".join(record["tree"])
        if record.get("outside"):
            yield "other files were affected: %s" % record["outside"]
        for note in record.get("notes", []):
            yield note


OS_ERRORS = (
    "OSError",
    "PermissionError",
    "InterruptedError",
    "BlockingIOError",
    "FileNotFoundError",
    "FileExistsError",
    "IsADirectoryError",
    "NotADirectoryError",
    "TimeoutError",
    "BrokenPipeError",
)


# ------------------------------------------------------------------------- C04


class C04(Property):
    ident = "C04"

    def generate(self, gen):
        objs, ops = [], []
        paths = ["sub/x.csv", "y.json"]
        files = {p: gen.pick(CONTENTS) for p in paths if gen.chance(0.6)}
        files["sub/neighbour.csv"] = ["digits", 40]
        for _ in range(gen.rng.randrange(1, 4)):
            spec, rates = exportable(gen)
            objs.append(spec)
            ops.append(
                {
                    "do": "get",
                    "on": "o%d" % (len(objs) - 1),
                    "q": {"k": "file", "path": gen.pick(paths), "kw": dict(gen.file_kw(explicit=True), **rates)},
                    "storage": True,
                }
            )
        return {
            "objs": objs,
            "ops": ops,
            "files": files,
            "dirs": ["sub"],
            "watch_live": False,
            "crashes": None,
            "seed": gen.rng.randrange(1 << 30),
        }

    def judge(self, plan, root):
        import random

        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan, "crashes": 0, "restarts": 0}
        last = len(plan["ops"]) - 1
        # crash-free run: documents of every export and the number of storage operations
        records, status = R.run_history(plan, root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        done = {r["i"]: r for r in records if "out" in r and "i" in r}
        if len(done) != last + 1 or any(r["out"][0] != "file" for r in done.values()):
            return result
        path = plan["ops"][last]["q"]["path"]
        document = done[last]["dest"]
        # state of the disk just before the last export
        expected = {p: R.content_of(c) for p, c in plan["files"].items()}
        for i in range(last):
            expected[plan["ops"][i]["q"]["path"]] = done[i]["dest"]
        old = expected.get(path)
        rng = random.Random(plan["seed"])
        if plan.get("crashes"):
            points = plan["crashes"]
        else:
            total = done[last]["ops"]
            ordinals = list(range(total))
            if total > 10:
                ordinals = ordinals[:4] + sorted(rng.sample(ordinals[4:-3], 3)) + ordinals[-3:]
            points = []
            for ordinal in ordinals:
                points.append(["crash_before", ordinal, 0])
                points.append(["crash_partial", ordinal, rng.choice([0, 1, 333, 500, 999])])
            points.append(["crash_after", total - 1, 0])
            for point in points:
                point.append(self.aftermath(rng, last, total))
        bad = []
        for point in points:
            mode, ordinal, arg, restarts = point
            crash = copy.deepcopy(plan)
            crash["ops"][last]["faults"] = [
                {"kind": mode, "ops": 255, "ordinal": ordinal, "arg": arg}
            ]
            records, status = R.run_history(crash, root)
            result["calls"] += len(plan["ops"])
            if status != W.EXIT_CRASH:
                stuck = self.stuck(records, status)
                if stuck:
                    result["violations"].append(stuck)
                continue
            result["crashes"] += 1
            result["faults"][mode] = result["faults"].get(mode, 0) + 1
            problems, state = self.examine(root, path, (old,), document, expected)
            result["sig"].append(
                sha(
                    [
                        mode,
                        ordinal,
                        state,
                        plan["files"].get(path),
                        plan["ops"][last]["q"]["kw"]["file_type"],
                        plan["ops"][last]["q"]["kw"]["coordinates"],
                        done[last]["data"]["fn"],
                        last,
                        [r["crash"] and r["crash"]["kind"] for r in restarts],
                    ]
                )
            )
            for restart in [] if problems else restarts:
                # a new process exports again, on the disk the crash left
                result["restarts"] += 1
                problems = self.restart(plan, restart, root, path, done, expected, result)
                if problems:
                    break
            for problem in problems:
                bad.append(point)
                result["violations"].append(
                    "crash (%s storage operation %d of the last export, %s): %s"
                    % (mode[6:], ordinal, describe(plan["ops"][last]), problem)
                )
        if bad:
            result["plan"] = dict(plan, crashes=[bad[0]])
        return result

    def aftermath(self, rng, last, total):
        """The processes after the crash: which export each makes and where it crashes itself."""
        if rng.random() >= 0.35:
            return []
        restarts = []
        while rng.random() < 0.45 and len(restarts) < 3:
            kind = rng.choice(["crash_before", "crash_partial", "crash_after"])
            fault = {"kind": kind, "ops": 255, "ordinal": rng.randrange(total + 1), "arg": rng.choice([0, 1, 500, 999])}
            restarts.append({"op": rng.randrange(last + 1), "crash": fault})
        # the last of them completes its export
        restarts.append({"op": last if rng.random() < 0.7 else rng.randrange(last + 1), "crash": None})
        return restarts

    def examine(self, root, path, old, document, expected):
        """What is wrong with the disk after a crash, and how far the export had come."""
        found = {
            p: c.decode("utf-8", "surrogateescape") if c is not None else None
            for p, c in R.tree(root).items()
            if not p.endswith("/")
        }
        now = found.get(path)
        problems = []
        if now in old:
            state = "old"
        elif now is not None and document.startswith(now):
            state = "prefix%d" % (4 * len(now) // max(1, len(document)))
        else:
            state = "other"
            problems.append(
                "the destination holds neither its earlier content nor a prefix of the new document: %s"
                % O.short(now, 160)
            )
        for p, content in expected.items():
            if p != path and found.get(p) != content:
                problems.append(
                    "%s %s" % (p, "was lost" if p not in found else "was changed, now %s" % O.short(found[p], 100))
                )
        return problems, state

    def restart(self, plan, restart, root, path, done, expected, result):
        op = copy.deepcopy(plan["ops"][restart["op"]])
        op["q"]["path"] = path
        document = done[restart["op"]]["dest"]
        before = O.read_file(os.path.join(root, path))
        if restart["crash"]:
            op["faults"] = [restart["crash"]]
        again = {"objs": plan["objs"], "ops": [op], "watch_live": False}
        records, status = R.fork(lambda: R.History(again, root).run(), root)
        if status == W.EXIT_CRASH:
            key = "again " + restart["crash"]["kind"]
            result["faults"][key] = result["faults"].get(key, 0) + 1
            return ["again, " + p for p in self.examine(root, path, (before,), document, expected)[0]]
        stuck = self.stuck(records, status)
        if stuck:
            return [stuck]
        out = next((r for r in records if "out" in r and "i" in r), None)
        if out is None or out["out"][0] != "file":
            return ["the repeated export failed: %s" % O.short(out and out["out"], 200)]
        if out["dest"] != document:
            return ["the repeated export did not leave the exact document"]
        after = R.tree(root)
        return [
            "%s was changed by the repeated export" % p
            for p, content in expected.items()
            if p != path and after.get(p, b"").decode("utf-8", "surrogateescape") != content
        ]

    def shrink_candidates(self, plan):
        for point in (plan.get("crashes") or [])[:1]:
            for k in range(len(point[3])):
                yield dict(plan, crashes=[point[:3] + [point[3][:k] + point[3][k + 1 :]]])
        yield from super().shrink_candidates(plan)


# -------------------------------------------------- results alone versus in company


def compare(result, what, got, want, text_matters=True):
    """Adds a violation if a call did not give what it gives alone."""
    if want[0] == "unbuildable":
        return
    if not text_matters:
        got, want = without_text(got), without_text(want)
    if not O.close(got, want):
        result["violations"].append(
            "%s gave %s but alone gives %s" % (what, O.short(got), O.short(want))
        )


def numbers(value):
    """A document as its numbers: how NumPy prints them may depend on its settings."""
    if value[0] != "file":
        return value
    text = value[1]
    try:
        return ["document", json.dumps(json.loads(text), sort_keys=True)]
    except ValueError:
        pass
    try:
        rows = text.split("\r\n")
        return ["document", rows[0], [[float(x) for x in row.split(",")] for row in rows[1:-1]], rows[-1]]
    except ValueError:
        return value


def without_text(value):
    if value[0] == "exc":
        return value[:2]
    if value[0] == "s":
        return ["s"]
    return value


def shape(value):
    """What kind of outcome it is, for signatures."""
    if value[0] == "exc":
        return value[:2]
    return value[:1]


# ------------------------------------------------------------------------- C05


def schedule(gen):
    roll = gen.rng.random()
    seed = gen.rng.randrange(1 << 30)
    if roll < 0.45:
        return {"kind": "random", "p": gen.pick([0.3, 0.1, 0.03, 0.01, 0.003]), "seed": seed}
    if roll < 0.7:
        return {"kind": "hot", "mod": gen.pick([5, 11, 23, 47]), "seed": seed}
    if roll < 0.9:
        return {"kind": "pct", "depth": gen.pick([1, 2, 3, 5]), "horizon": gen.pick([300, 1500, 6000]), "seed": seed}
    return {"kind": "robin", "every": gen.pick([1, 2, 3, 7, 19, 50])}


# all queries
KINDS = [("prop", p) for p in O.PROPS] + [("export", None), ("file", None), ("str", None), ("repr", None)]
KINDS += [("convert", None), ("sequence export", None), ("sequence file", None), ("sequence str", None), ("sequence repr", None)]


def query_of(gen, kind, prop):
    """An object and a query of the kind (of KINDS)."""
    sequence = kind == "convert" or kind.startswith("sequence")
    while True:
        spec = gen.creation()
        if O.is_driven(spec) != sequence:
            break
    return spec, like_query(gen, spec, kind, prop, "f.out")


def like_query(gen, spec, kind, prop, path):
    q = {"k": "prop", "p": prop}
    while kind != "prop":
        q = gen.call(spec, path)
        if q["k"] == kind.split()[-1]:
            break
    return q


def in_turn(gen, turn, count=3):
    """Similar calls of one kind: every query and function in turn, alternately with large objects."""
    kinds = KINDS + [("new", fn) for fn in gen.FUNCTIONS]
    kind, detail = kinds[turn % len(kinds)]
    gen.large = turn // len(kinds) % 2 == 0
    if kind == "new":
        base = gen.any_function(gen.FUNCTIONS.index(detail))
        return kind, [], [{"spec": gen.vary(base) if gen.chance(0.7) else gen.sibling(base)} for _ in range(count)]
    base, _ = query_of(gen, kind, detail)
    objs = [base] + [gen.vary(base) if gen.chance(0.7) else gen.sibling(base) for _ in range(count - 1)]
    ops = [{"on": on, "q": like_query(gen, objs[on], kind, detail, "c%d.out" % on)} for on in range(count)]
    return kind.split()[-1], objs, ops


class Concurrent(Property):

    def shrink_candidates(self, plan):
        threads = plan["threads"]
        for t in range(len(threads)):
            if len(threads) > 1 and threads[t]:
                new = list(threads)
                new[t] = []
                yield dict(plan, threads=new)
        for t in range(len(threads)):
            for k in range(len(threads[t])):
                new = [list(x) for x in threads]
                del new[t][k]
                yield dict(plan, threads=new)
        for j in range(len(plan.get("faults", []))):
            yield dict(plan, faults=plan["faults"][:j] + plan["faults"][j + 1 :])
        for name in plan.get("ambient", {}):
            yield dict(plan, ambient={k: v for k, v in plan["ambient"].items() if k != name})
        if plan["schedule"]["kind"] == "explicit":
            switches = plan["schedule"]["switches"]
            size = len(switches)
            while size >= 1:
                for start in range(0, len(switches), size):
                    rest = switches[:start] + switches[start + size :]
                    if len(rest) < len(switches):
                        yield dict(plan, schedule=dict(plan["schedule"], switches=rest))
                size //= 2

    def items(self, plan):
        where, items = [], []
        for t, calls in enumerate(plan["threads"]):
            for k, op in enumerate(calls):
                where.append((t, k))
                if "on" in op:
                    items.append({"spec": plan["objs"][op["on"]], "q": op["q"]})
                else:
                    items.append({"spec": op["spec"]})
        return where, items

    def execute(self, plan, root, result):
        records, status = R.run_threads(plan, root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            switches = next((r["switches"] for r in records if "stuck" in r), [])
            result["plan"] = dict(plan, schedule={"kind": "explicit", "switches": switches})
            return None, None
        done = next(r for r in records if "done" in r)
        outs = {(r["t"], r["k"]): r["out"] for r in records if "t" in r}
        result["calls"] += len(outs)
        result["steps"] = done["steps"]
        result["switches"] = len(done["switches"])
        result["trail"] = done["trail"]
        result["plan"] = dict(plan, schedule={"kind": "explicit", "switches": done["switches"]})
        return done, outs

    def op_text(self, plan, t, k):
        op = plan["threads"][t][k]
        if "on" in op:
            return "thread %d call %d (%s on object %d)" % (t, k, describe(dict(op, do="get")), op["on"])
        return "thread %d call %d (%s)" % (t, k, op["spec"]["fn"])


class C05(Concurrent):
    ident = "C05"

    def crowd(self, gen, turn):
        """Many calls of one function with ever different arguments, before and in the threads."""
        spec = gen.any_function(turn)
        objs = [gen.vary(spec) for _ in range(3)]
        share = gen.pick([0.0, 0.3])
        threads = []
        for t in range(gen.pick([3, 4])):
            calls = []
            for k in range(gen.pick([4, 6, 8])):
                if gen.chance(share):
                    on = gen.rng.randrange(len(objs))
                    calls.append({"on": on, "q": gen.call(objs[on], "d/out%d_%d.csv" % (t, k))})
                else:
                    calls.append({"spec": gen.vary(spec) if gen.chance(0.9) else gen.sibling(spec)})
            threads.append(calls)
        prelude = {
            "seed": gen.rng.randrange(1 << 30),
            "count": gen.rng.randrange(60),
            "rejected": 0.0,
            "aborts": 0.0,
            "faults": 0.0,
            "queries": False,
            "files": False,
            "paths": False,
            "focus": None,
            "same": 0.0,
        }
        return {
            "objs": objs,
            "threads": threads,
            "dirs": ["d"],
            "schedule": schedule(gen),
            "opcodes": True,
            "prelude": prelude,
        }

    def throng(self, gen, turn, few=False):
        """The same call on a few objects, or on more than a small cache holds, before and in the threads."""
        kind, prop = KINDS[turn % len(KINDS)]
        sequence = kind == "convert" or kind.startswith("sequence")
        kind = kind.split()[-1]
        gen.large = turn // len(KINDS) % 2 == 1
        while True:
            spec = gen.creation()
            if O.is_driven(spec) != sequence:
                break
        objs = [gen.vary(spec) if gen.chance(0.7) else gen.sibling(spec) for _ in range(gen.pick([2, 3] if few else [6, 10, 14]))]
        objs = [o if O.is_driven(o) != sequence else gen.vary(spec) for o in objs]
        threads = []
        for t in range(gen.pick([2, 3])):
            calls = []
            for k in range(gen.pick([2, 3] if few else [3, 5, 7])):
                on = gen.rng.randrange(len(objs))
                q = {"k": "prop", "p": prop}
                while kind != "prop":
                    q = gen.call(objs[on], "d/out%d_%d.csv" % (t, k))
                    if q["k"] == kind:
                        break
                calls.append({"on": on, "q": q})
            threads.append(calls)
        if gen.chance(0.5):
            # the objects have been asked before, one after the other
            threads[0] = [{"on": on, "q": dict(threads[0][0]["q"], **({"path": "d/first%d" % on} if kind == "file" else {}))} for on in range(len(objs))] + threads[0]
        return {
            "objs": objs,
            "threads": threads,
            "dirs": ["d"],
            "schedule": schedule(gen),
            "opcodes": True,
        }

    def generate(self, gen):
        rng = gen.rng
        if gen.index % 12 == 5:
            return self.crowd(gen, gen.index // 12)
        if gen.index % 12 == 11:
            return self.throng(gen, gen.index // 12)
        if gen.index % 12 in (2, 8):
            return self.throng(gen, gen.index // 6, few=True)
        count = gen.pick([2, 2, 3, 3, 4])
        clash = gen.chance(0.55)
        objs = [gen.creation() for _ in range(rng.randrange(1, 3))]
        for _ in range(gen.pick([1, 1, 2])):
            objs.append(gen.sibling(gen.pick(objs)))
        threads = []
        directory = gen.pick(["d", "d", "d%d"])
        ending = gen.pick(["name", "suffix", "stem"])
        base = rng.randrange(len(objs))
        first = None
        number = 0
        for t in range(count):
            calls = []
            for k in range(gen.pick([1, 1, 2, 2, 3, 4])):
                folder = directory % t if "%" in directory else directory
                if ending == "name":
                    path = "%s/out%d_%d.csv" % (folder, t, k)
                elif ending == "suffix":
                    path = "%s/out.%s" % (folder, "%d" % number)
                else:
                    path = "%s/t%d%d/out.csv" % (folder, t, k)
                number += 1
                if clash and first is not None:
                    op = self.like(gen, first, objs, path)
                elif gen.chance(0.35):
                    op = {"spec": gen.creation() if gen.chance(0.9) else gen.bad_creation()}
                else:
                    on = rng.randrange(len(objs)) if not clash else base
                    op = {"on": on, "q": gen.call(objs[on], path)}
                if first is None:
                    first = op
                calls.append(op)
            threads.append(calls)
        dirs = sorted({os.path.dirname(op["q"]["path"]) for c in threads for op in c if op.get("q", {}).get("k") == "file"})
        return {
            "objs": objs,
            "threads": threads,
            "dirs": dirs,
            "schedule": schedule(gen),
            "opcodes": gen.chance(0.85),
        }

    def like(self, gen, first, objs, path):
        """A call of the same kind as another, on the same or a similar object."""
        if "spec" in first:
            return {"spec": gen.sibling(first["spec"]) if gen.chance(0.7) else first["spec"]}
        same_kind = [
            i for i, o in enumerate(objs) if O.is_driven(o) == O.is_driven(objs[first["on"]])
        ]
        on = gen.pick(same_kind)
        q = copy.deepcopy(first["q"])
        if q["k"] == "file":
            q["path"] = path
            fresh = gen.file_kw()
            for key in ("file_type", "coordinates"):
                if key in fresh:
                    q["kw"][key] = fresh[key]
        elif q["k"] == "export" and O.is_driven(objs[on]):
            q["kw"] = gen.plot_kw()
        elif q["k"] == "prop" and gen.chance(0.5):
            q["p"] = gen.pick(O.PROPS)
        elif q["k"] == "convert" and gen.chance(0.5):
            q["kw"] = gen.convert_kw(objs[on])
        return {"on": on, "q": q}

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        where, items = self.items(plan)
        alone = R.baseline(items, root)
        done, outs = self.execute(plan, root, result)
        if done is None:
            return result
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        for (t, k), base in zip(where, alone):
            if (t, k) in outs:
                compare(result, self.op_text(plan, t, k), outs[(t, k)], base["out"])
        result["violations"].extend(done["notes"])
        if done["extra"]:
            result["violations"].append("extra files were left behind: %s" % done["extra"])
        if sum(1 for c in plan["threads"] if c) > 1 and result["switches"]:
            result["sig"].append(done["trail"])
        return result


# ------------------------------------------------------------------------- C10


class C10(Concurrent):
    ident = "C10"

    def names(self, gen):
        """Destinations of the exports, in directories of their own or in one, and how faults find them."""
        return gen.pick([("t%d_%d/out.csv", "t%d_%d/"), ("t%d_%d/out.csv", "t%d_%d/"), ("d/t%d_%d_out.csv", "t%d_%d_")])

    def generate(self, gen):
        rng = gen.rng
        count = gen.pick([2, 2, 3, 3, 4])
        objs, rates = [], []
        for _ in range(rng.randrange(1, 3)):
            spec, rate = exportable(gen, big=gen.chance(0.3))
            objs.append(spec)
            rates.append(rate)
        if gen.chance(0.5):
            objs.append(gen.sibling(objs[0]))
            rates.append(rates[0])
        threads, faulty = [], []
        source = Faults(gen)
        name, match = self.names(gen)
        for t in range(count):
            calls = []
            for k in range(gen.pick([1, 1, 2, 3])):
                on = rng.randrange(len(objs))
                if gen.chance(0.8) or k == 0:
                    path = name % (t, k)
                    q = {"k": "file", "path": path, "kw": dict(gen.file_kw(), **rates[on])}
                    calls.append({"on": on, "q": q})
                    if gen.chance(0.5):
                        for fault in source.hard(interrupt=False) + ([source.soft()] if gen.chance(0.3) else []):
                            faulty.append(dict(fault, match=match % (t, k)))
                else:
                    calls.append({"on": on, "q": gen.call(objs[on], None)})
            threads.append(calls)
        dirs = sorted({os.path.dirname(op["q"]["path"]) for c in threads for op in c if op["q"]["k"] == "file"})
        size = max(
            [len(O.plain(s["kw"].get("durations", s["kw"].get("offsets", [])))) for s in objs]
        )
        return {
            "objs": objs,
            "threads": threads,
            "dirs": dirs,
            "schedule": schedule(gen),
            "faults": faulty[:60],
            "opcodes": size < 60,
        }

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        where, items = self.items(plan)
        alone = R.baseline(items, root)
        done, outs = self.execute(plan, root, result)
        if done is None:
            return result
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        hit = {}
        for fault, fired in zip(plan["faults"], done["fired"]):
            if fired:
                hit.setdefault(fault["match"], []).append(fault)
                key = fault["kind"] + (":" + errno.errorcode[fault["errno"]] if fault.get("errno") else "")
                result["faults"][key] = result["faults"].get(key, 0) + fired
        for (t, k), base in zip(where, alone):
            if (t, k) not in outs:
                continue
            out = outs[(t, k)]
            op = plan["threads"][t][k]
            fired = []
            if op.get("q", {}).get("k") == "file":
                fired = [f for match, faults in hit.items() if match in op["q"]["path"] for f in faults]
            if fired and out[0] == "exc":
                numbers = {str(f["errno"]) for f in fired if f.get("errno")}
                numbers |= {str(errno.EINTR)} if any(f["kind"] == "eintr" for f in fired) else set()
                if out[1] not in OS_ERRORS or out[2] not in numbers:
                    result["violations"].append(
                        "%s raised %s instead of its storage error" % (self.op_text(plan, t, k), O.short(out, 200))
                    )
                continue
            compare(result, self.op_text(plan, t, k), out, base["out"])
        result["violations"].extend(done["notes"])
        if done["leaked"]:
            result["violations"].append("%d files were left open" % done["leaked"])
        if done["extra"]:
            result["violations"].append("extra files were left behind: %s" % done["extra"])
        if hit and result["switches"] and sum(1 for c in plan["threads"] if c) > 1:
            result["sig"].append(sha([done["trail"], sorted(hit)]))
        return result


# ------------------------------------------------------------------------- C20


class C20(C10):
    ident = "C20"

    def generate(self, gen):
        rng = gen.rng
        objs, rates = [], []
        for _ in range(rng.randrange(1, 3)):
            spec, rate = exportable(gen, big=gen.chance(0.3) and gen.index % 8 != 7)
            objs.append(spec)
            rates.append(rate)
        if gen.chance(0.5):
            objs.append(gen.sibling(objs[0]))
            rates.append(rates[0])
        many = gen.index % 8 == 7
        count = gen.pick([5, 6, 8, 10, 12] if many else [2, 2, 3, 3, 4])
        hanging = rng.sample(range(count), count - gen.pick([1, 1, 2]) if many else 1 if count == 2 else gen.pick([1, 1, 2]))
        name, match = self.names(gen)
        threads, faults = [], []
        for t in range(count):
            calls = []
            for k in range(1 if many else gen.pick([1, 1, 2]) if t in hanging else gen.pick([1, 2, 3, 4])):
                on = rng.randrange(len(objs))
                if gen.chance(0.6) or t in hanging and k == 0:
                    q = {"k": "file", "path": name % (t, k), "kw": dict(gen.file_kw(), **rates[on])}
                    calls.append({"on": on, "q": q})
                elif gen.chance(0.3):
                    calls.append({"spec": gen.creation() if gen.chance(0.8) else gen.bad_creation()})
                else:
                    calls.append({"on": on, "q": gen.call(objs[on], None)})
            threads.append(calls)
            if t in hanging:
                which = gen.pick([k for k, op in enumerate(calls) if op.get("q", {}).get("k") == "file"])
                fault = {"kind": "hang", "ops": W.OPEN | W.WRITE | W.SYNC | W.RENAME | W.TRUNC, "ordinal": gen.pick([0, 0, 0, 1] if many else [0, 0, 1, 1, 2, 3])}
                if gen.chance(0.3):
                    fault["errno"] = gen.pick([errno.EIO, errno.ENOSPC, errno.ESTALE, errno.ETIMEDOUT])
                faults.append(dict(fault, match=match % (t, which), owner=t))
        dirs = sorted({os.path.dirname(op["q"]["path"]) for c in threads for op in c if op.get("q", {}).get("k") == "file"})
        return {
            "objs": objs,
            "threads": threads,
            "dirs": dirs,
            "schedule": schedule(gen),
            "faults": faults,
            "opcodes": max(len(O.plain(s["kw"].get("durations", s["kw"].get("offsets", [])))) for s in objs) < 60,
        }


# ------------------------------------------------------------------------- C06


class C06(Property):
    ident = "C06"

    def series(self, gen, turn):
        """Many calls of one function with ever different arguments, all of them judged."""
        spec = gen.any_function(turn)
        ops = []
        for k in range(gen.pick([20, 30, 50])):
            new = gen.vary(spec) if gen.chance(0.8) else gen.sibling(spec)
            ops.append({"do": "new", "spec": new, "slot": "s%d" % (k % 4)})
            if gen.chance(0.3):
                ops.append({"do": "get", "on": "s%d" % (k % 4), "q": gen.call(new, "f.out")})
        return {"objs": [], "ops": ops, "watch_live": True}

    def twins(self, gen, turn):
        """The same call several times, of every function in turn; one result is changed."""
        gen.large = turn // len(gen.FUNCTIONS) % 2 == 0
        spec = gen.any_function(turn)
        if O.is_driven(spec):
            queries = [{"k": "prop", "p": p} for p in O.PROPS] + [{"k": "export", "kw": gen.plot_kw()}]
        else:
            queries = [{"k": "export", "kw": {}}, {"k": "convert", "kw": gen.convert_kw(spec)}]
        ops = [{"do": "new", "spec": spec, "slot": s} for s in ("a", "b")]
        ops.append({"do": "new", "spec": gen.vary(spec), "slot": "c"})
        changed = ["a"]
        for q in gen.rng.sample(queries, min(len(queries), 3)):
            ops.append({"do": "get", "on": "b", "q": q, "slot": "r%d" % len(changed)})
            ops.append({"do": "get", "on": "b", "q": q})
            changed.append("r%d" % len(changed))
        for pick in range(4):
            how = {"act": gen.pick(["set", "fill", "scale", "permute"]), "pick": pick, "pos": gen.rng.randrange(130), "v": gen.pick([0.5, 2.0, 1e3, 0.0])}
            ops.append({"do": "mutate", "slot": "a", "how": how})
        for slot in changed[1:]:
            how = {"act": gen.pick(["set", "fill", "scale"]), "pick": gen.rng.randrange(12), "pos": gen.rng.randrange(130), "v": 0.5}
            ops.append({"do": "mutate", "slot": slot, "how": how})
            ops.append({"do": "get", "on": "b", "q": queries[0]})
        ops.append({"do": "new", "spec": spec, "slot": "d"})
        ops.extend({"do": "get", "on": "d", "q": q} for q in queries[:3])
        ops.append({"do": "new", "spec": gen.vary(spec)})
        return {"objs": [], "ops": ops, "watch_live": True}

    def kept(self, gen, turn):
        """Everything that can be asked of an object is kept while many more calls are made."""
        spec = gen.any_function(turn)
        ops = [{"do": "new", "spec": spec, "slot": "s"}]
        if O.is_driven(spec):
            queries = [{"k": "prop", "p": p} for p in O.PROPS] + [{"k": "export", "kw": gen.plot_kw()}]
        else:
            queries = [{"k": "export", "kw": {}}, {"k": "convert", "kw": gen.convert_kw(spec)}]
        for k, q in enumerate(queries):
            ops.append({"do": "get", "on": "s", "q": q, "slot": "k%d" % k})
        ops.append({"do": "new", "spec": gen.sibling(spec)})
        prelude = {
            "seed": gen.rng.randrange(1 << 30),
            "count": gen.pick([40, 100, 150]),
            "rejected": 0.0,
            "aborts": 0.0,
            "faults": 0.0,
            "queries": True,
            "files": False,
            "paths": False,
            "focus": gen.pick([None, "prop" if O.is_driven(spec) else "convert"]),
            "same": gen.pick([0.0, 0.5]),
            "at": 0.999,
        }
        return {"objs": [], "ops": ops, "prelude": prelude, "watch_live": True}

    def marathon(self, gen):
        """A call is repeated a great many times."""
        gen.large = False
        times = gen.pick([1100, 1100, 2100, 4200])
        spec = gen.creation()
        ops = [{"do": "new", "spec": spec, "slot": "s"}]
        kind = gen.pick(["new", "get", "get", "rejected"])
        if kind == "new":
            ops[0]["times"] = times
        elif kind == "get":
            ops.append({"do": "get", "on": "s", "q": gen.call(spec, "f.out"), "times": times})
        else:
            ops.append({"do": "new", "spec": gen.bad_creation(), "times": times})
        ops.append({"do": "new", "spec": gen.sibling(spec), "slot": "t"})
        ops.append({"do": "get", "on": "t", "q": gen.call(spec, "f.out")})
        return {"objs": [], "ops": ops, "watch_live": True}

    def generate(self, gen):
        rng = gen.rng
        if gen.index % 9 == 2 and gen.index % 1500 < 200:
            return self.marathon(gen)
        # some runs in turn for every function
        if gen.index % 17 == 3:
            return self.series(gen, gen.index // 17)
        if gen.index % 25 == 4:
            return self.kept(gen, gen.index // 25)
        if gen.index % 9 == 5:
            return self.twins(gen, gen.index // 9)
        ops, slots, specs = [], [], {}
        pool = [gen.creation()]
        queries = []
        length = rng.randrange(4, 15)
        number = 0
        if gen.chance(0.03):
            # many different calls first: bounded tables overflow, counters grow
            kinds = [gen.creation() for _ in range(gen.pick([1, 1, 2, 3]))]
            for spec in kinds:
                pool.append(spec)
            for _ in range(gen.pick([40, 80, 140])):
                spec = gen.sibling(gen.pick(kinds))
                ops.append({"do": "new", "spec": spec, "slot": "x"})
                if gen.chance(0.1):
                    pool.append(spec)
            length += len(ops)
        while len(ops) < length:
            roll = rng.random()
            if roll < 0.4 or not specs:
                how = rng.random()
                if how < 0.4:
                    spec = gen.pick(pool)
                elif how < 0.75:
                    spec = gen.sibling(gen.pick(pool))
                elif how < 0.93:
                    spec = gen.creation()
                else:
                    spec = gen.bad_creation()
                pool.append(spec)
                slot = "s%d" % number
                number += 1
                ops.append({"do": "new", "spec": spec, "slot": slot})
                slots.append(slot)
                specs[slot] = spec
            elif roll < 0.78:
                on = gen.pick(sorted(specs))
                path = "f%d.out" % gen.pick([0, 1, number])
                if queries and gen.chance(0.4):
                    base = gen.pick(queries)
                    if base[1] == O.is_driven(specs[on]):
                        q = copy.deepcopy(base[0])
                    else:
                        q = gen.call(specs[on], path)
                else:
                    q = gen.call(specs[on], path)
                queries.append((q, O.is_driven(specs[on])))
                slot = "s%d" % number
                number += 1
                op = {"do": "get", "on": on, "q": q}
                if q["k"] in ("prop", "export", "convert"):
                    op["slot"] = slot
                    slots.append(slot)
                    if q["k"] == "convert":
                        pass
                ops.append(op)
                if gen.chance(0.2):
                    ops.append(copy.deepcopy({k: v for k, v in op.items() if k != "slot"}))
            elif roll < 0.95:
                ops.append(
                    {
                        "do": "mutate",
                        "slot": gen.pick(slots),
                        "how": {
                            "act": gen.pick(["set", "fill", "scale", "permute", "clear"]),
                            "pick": rng.randrange(12),
                            "pos": rng.randrange(30),
                            "v": gen.pick([0.5, 2.0, 0.125, 1e3, 0.0]),
                        },
                    }
                )
            elif roll < 0.98 and slots:
                slot = gen.pick(slots)
                slots.remove(slot)
                specs.pop(slot, None)
                ops.append({"do": "drop", "slot": slot, "gc": gen.chance(0.15)})
        return {"objs": [], "ops": ops}

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        records, status = R.run_history(plan, root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        calls = [r for r in records if "base" in r]
        alone = R.baseline([r["base"] for r in calls], root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        signature = []
        for record, base in zip(calls, alone):
            op = plan["ops"][record["i"]]
            result["calls"] += 1
            compare(result, "op %d (%s)" % (record["i"], describe(op)), record["out"], base["out"])
            signature.append([describe_short(op), shape(record["out"])])
            result["calls"] += op.get("times", 0)
        for record in records:
            if "mutated" in record:
                signature.append(["m", record["mutated"]])
            for note in record.get("notes", []):
                result["violations"].append("op %d: %s" % (record["i"], note))
        if len(calls) > 1:
            result["sig"].append(sha(signature))
        return result


def describe_short(op):
    if op["do"] == "new":
        return op["spec"]["fn"]
    return [op["on"], op["q"]["k"], op["q"].get("p")]


def import_complaints(result, record):
    if "import" not in record:
        return
    result["calls"] += 1
    if record.get("aborted"):
        result["faults"]["abort of an import"] = result["faults"].get("abort of an import", 0) + 1
        result["sig"].append(sha(["import", record["aborted"]]))
    result["violations"].extend(record["notes"])
    result["violations"].extend("the import changed " + change for change in record["ambient"])
    if record["leaked"]:
        result["violations"].append("the import left %d files open" % record["leaked"])


# ------------------------------------------------------------------------- C07


class C07(Property):
    ident = "C07"

    def generate(self, gen):
        rng = gen.rng
        if gen.index % 7 == 3:
            return self.sweep(gen, gen.index // 7)  # in turn for every function
        objs = [gen.creation() for _ in range(rng.randrange(1, 3))]
        ops = []
        pool = list(objs)
        for _ in range(rng.randrange(1, 4)):
            if gen.chance(0.45):
                spec = gen.pick(pool) if gen.chance(0.3) else gen.creation()
                pool.append(spec)
                op = {"do": "new", "spec": spec}
            else:
                k = rng.randrange(len(objs))
                q = gen.call(objs[k], "f.out")
                if gen.chance(0.25):
                    q = {"k": "file", "path": "f.out", "kw": gen.file_kw()}
                    if not O.is_driven(objs[k]):
                        conv = gen.convert_kw(objs[k])
                        q["kw"]["maximum_rabi_rate"] = conv["maximum_rabi_rate"]
                        q["kw"]["maximum_detuning_rate"] = conv["maximum_detuning_rate"]
                op = {"do": "get", "on": "o%d" % k, "q": q}
            if gen.chance(0.2):
                ops.append(copy.deepcopy(op))
            for _ in range(gen.pick([1, 1, 2])):
                aborted = copy.deepcopy(op)
                aborted["abort"] = {
                    "fraction": rng.random(),
                    "error": gen.pick(sorted(R.ABORTS)),
                    "function": gen.chance(0.5),
                }
                if gen.chance(0.4):
                    aborted["abort"]["calls"] = True
                ops.append(aborted)
            ops.append(op)
            if op["do"] == "new" and gen.chance(0.4):
                ops.append({"do": "new", "spec": gen.sibling(op["spec"])})
        for k in range(len(objs)):
            ops.append({"do": "get", "on": "o%d" % k, "q": gen.call(objs[k], "f.out")})
        plan = {"objs": objs, "ops": ops, "watch_ambient": gen.chance(0.5), "gc": gen.chance(0.5)}
        if gen.chance(0.15):
            plan["import"] = {
                "fraction": rng.random(),
                "error": gen.pick(sorted(R.ABORTS)),
            }
        return plan

    def sweep(self, gen, turn):
        """The same call aborted at one point after the other: what is left behind adds up."""
        spec = gen.any_function(turn)
        op = {"do": "new", "spec": spec}
        if gen.chance(0.4):
            op = {"do": "get", "on": "o0", "q": gen.call(spec, "f.out")}
        error = gen.pick(sorted(R.ABORTS))
        first = dict(copy.deepcopy(op), sweep=gen.pick([60, 90, 140]), error=error)
        if gen.chance(0.6):
            first["functions"] = gen.rng.randrange(1 << 30)
        if gen.chance(0.4):
            first["calls"] = True
        ops = [first, op]
        for _ in range(2):
            ops.append({"do": "new", "spec": gen.sibling(spec)})
        return {"objs": [spec], "ops": ops, "watch_ambient": gen.chance(0.2), "gc": gen.chance(0.5)}

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        items = []
        for op in plan["ops"]:
            if op["do"] == "new":
                items.append({"spec": op["spec"]})
            else:
                items.append({"spec": plan["objs"][int(op["on"][1:])], "q": op["q"]})
            if "abort" in op or "sweep" in op:
                calls = op.get("calls") or op.get("abort", {}).get("calls")
                items[-1]["count"] = "calls" if calls else "lines"
        alone = R.baseline(items, root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        plan = copy.deepcopy(plan)
        ops, wanted = [], []
        for op, base in zip(plan["ops"], alone):
            ops.append(op)
            wanted.append(base)
            abort = op.get("abort")
            if abort and "at" not in abort:
                abort["at"] = R.position(base, abort)
            if "sweep" in op:
                # one abort after the other, over the whole call or many in each function of it
                count, seed = op.pop("sweep"), op.pop("functions", None)
                places = [int((k + 0.5) / count * base.get("lines", 0)) for k in range(count)]
                if seed is not None:
                    rng = random.Random(seed)
                    places = [at for _, some in base.get("functions", []) for at in rng.choices(some, k=count)]
                places = places[:800]
                # long calls are aborted less often
                op["places"] = places[:: 1 + sum(places) // (60000 if op.get("calls") else 200000)]
        plan["ops"], alone = ops, wanted
        result["plan"] = plan
        records, status = R.run_history(plan, root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        for record in records:
            import_complaints(result, record)
            if "out" not in record or "i" not in record:
                continue
            op = plan["ops"][record["i"]]
            result["calls"] += 1
            text = "op %d (%s)" % (record["i"], describe(op))
            if record.get("aborted"):
                name = op["abort"]["error"]
                result["faults"]["abort:" + name] = result["faults"].get("abort:" + name, 0) + 1
                text += " aborted at " + record["aborted"]
                if record.get("lost_abort"):
                    result["violations"].append(
                        "%s did not pass on %s but ended with %s" % (text, name, O.short(record["out"], 200))
                    )
                result["sig"].append(sha([describe_short(op)[1:] if op["do"] == "get" else op["spec"]["fn"], record["aborted"], name]))
            else:
                compare(result, text, record["out"], alone[record["i"]]["out"])
            for note in record.get("notes", []):
                result["violations"].append("%s: %s" % (text, note))
            for change in record.get("ambient", []):
                result["violations"].append("%s changed %s" % (text, change))
            if "swept" in record:
                self.swept(result, op, record["swept"], alone[record["i"]]["out"], text)
        return result

    def swept(self, result, op, swept, alone, text):
        name = op["error"]
        result["calls"] += len(op["places"])
        if swept["fired"]:
            result["faults"]["abort:" + name] = result["faults"].get("abort:" + name, 0) + len(swept["fired"])
        if swept["lost"]:
            place, out = swept["lost"]
            result["violations"].append(
                "%s aborted at %s did not pass on %s but ended with %s" % (text, place, name, O.short(out, 200))
            )
        for out in swept["outs"]:
            compare(result, text, out, alone)
        what = describe_short(op)[1:] if op["do"] == "get" else op["spec"]["fn"]
        for place in sorted(set(swept["fired"])):
            result["sig"].append(sha([what, place, name]))

    def shrink_candidates(self, plan):
        for i, op in enumerate(plan["ops"]):
            places = op.get("places", [])
            size = (len(places) + 1) // 2
            while size >= 1 and places:
                for start in range(0, len(places), size):
                    rest = places[:start] + places[start + size :]
                    ops = plan["ops"][:i] + [dict(op, places=rest)] + plan["ops"][i + 1 :]
                    yield dict(plan, ops=ops)
                size //= 2
        yield from super().shrink_candidates(plan)


# ------------------------------------------------------------------------- C08


class C08(Property):
    ident = "C08"

    def setting(self, gen):
        rng = gen.rng
        spec = {}
        if gen.chance(0.5):
            spec["print"] = gen.pick(
                [
                    {"precision": 2},
                    {"precision": 3, "suppress": True},
                    {"threshold": 2, "edgeitems": 1},
                    {"linewidth": 20, "floatmode": "fixed", "precision": 1},
                    {"sign": "+"},
                    {"precision": 17, "formatter": None},
                    {"formatter": "float_kind"},
                    {"formatter": "all"},
                    {"legacy": "1.13", "precision": 4},
                ]
            )
        if gen.chance(0.4):
            spec["err"] = gen.pick([{"all": "ignore"}, {"divide": "warn", "invalid": "ignore"}, {"over": "ignore", "under": "warn"}])
        if gen.chance(0.6):
            spec["seed"] = rng.randrange(1 << 30)
        if gen.chance(0.5):
            spec["cwd"] = gen.pick(["elsewhere", "a/b"])
        if gen.chance(0.5):
            spec["env"] = gen.pick(
                [
                    {"TZ": "Asia/Kathmandu", "LANG": "de_DE.UTF-8"},
                    {"HOME": "/nonexistent", "USER": "nobody"},
                    {"LC_NUMERIC": "fr_FR.UTF-8", "PYTHONHASHSEED": "7"},
                    {"COLUMNS": "20", "DEBUG": "1", "NO_COLOR": "1"},
                ]
            )
        if gen.chance(0.6):
            spec["env_fuzz"] = gen.pick(["1", "0", "", "true", "3", "debug", "/nonexistent", "JSON", "cartesian"])
        if gen.chance(0.6):
            spec["clock"] = gen.pick([0.0, 1.0, 1.6e9, 4e9, 1.2345e9 + rng.random()])
            spec["tick"] = gen.pick([0.0, 1e-6, 1.0, 3600.0])
        if gen.chance(0.3):
            spec["locale"] = gen.pick(["C", "C.UTF-8", "POSIX", ""])
        if gen.chance(0.3):
            spec["umask"] = gen.pick([0o077, 0o000, 0o027])
        if gen.chance(0.2):
            spec["warn"] = gen.pick(["ignore", "always", "once"])
        if gen.chance(0.1):
            spec["recursion"] = gen.pick([600, 3000])
        return spec

    def generate(self, gen):
        rng = gen.rng
        objs = [gen.creation() for _ in range(rng.randrange(1, 3))]
        ops = []
        faults = Faults(gen)
        for n in range(rng.randrange(2, 7)):
            roll = rng.random()
            if roll < 0.4:
                spec = gen.creation() if gen.chance(0.85) else gen.bad_creation()
                op = {"do": "new", "spec": spec}
            else:
                k = rng.randrange(len(objs))
                q = gen.call(objs[k], "f%d.out" % n)
                op = {"do": "get", "on": "o%d" % k, "q": q}
                if q["k"] == "file" and gen.chance(0.4):
                    op["faults"] = faults.hard()
            if gen.chance(0.15):
                op["abort"] = {
                    "at": rng.randrange(40),
                    "error": gen.pick(sorted(R.ABORTS)),
                    "calls": gen.chance(0.4),
                }
            ops.append(op)
            if gen.chance(0.25):
                ops.append({"do": "ambient", "set": self.later(self.setting(gen))})
        plan = {"objs": objs, "ops": ops, "watch_ambient": True, "watch_live": False, "ambient": self.setting(gen)}
        plan["gc"] = gen.chance(0.5)
        if gen.chance(0.3):
            plan["import"] = {}
        return plan

    def later(self, setting):
        setting.pop("env_fuzz", None)
        return setting

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        records, status = R.run_history(plan, root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        calls = [r for r in records if "base" in r]
        alone = R.baseline([r["base"] for r in calls], root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        settings = [plan.get("ambient", {})] + [op["set"] for op in plan["ops"] if op["do"] == "ambient"]
        for name in sorted({k for s in settings for k in s}):
            key = "perturb:" + name
            result["faults"][key] = result["faults"].get(key, 0) + 1
        for record in records:
            import_complaints(result, record)
        for record, base in zip(calls, alone):
            op = plan["ops"][record["i"]]
            result["calls"] += 1
            count_faults(result, op, record)
            text = "op %d (%s)" % (record["i"], describe(op))
            for change in record.get("ambient", []):
                result["violations"].append("%s changed %s" % (text, change))
            for note in record.get("notes", []):
                result["violations"].append("%s: %s" % (text, note))
            if record.get("aborted"):
                result["faults"]["abort"] = result["faults"].get("abort", 0) + 1
            elif not any(record.get("fired", [])):
                if op.get("q", {}).get("k") not in ("str", "repr"):
                    compare(result, text, numbers(record["out"]), numbers(base["out"]), text_matters=False)
            result["sig"].append(
                sha([describe_short(op)[1:] if op["do"] == "get" else op["spec"]["fn"], shape(record["out"]), sorted({k for s in settings for k in s})])
            )
        return result


def add_surroundings(ident, plan, gen):
    """Unusual settings, so that one put back to the usual value is noticed."""
    if gen.chance({"C07": 0.3, "C11": 0.3, "C16": 0.4, "C17": 0.6}.get(ident, 0.0)):
        left_out = {"env_fuzz", "clock", "tick", "recursion"} | ({"print"} if ident != "C17" else set())
        plan["ambient"] = {k: v for k, v in C08().setting(gen).items() if k not in left_out}
    return plan


# ------------------------------------------------------------------------- C09


class C09(Property):
    ident = "C09"

    def each(self, gen, turn):
        """One query, each in turn, before and after changes of every kind."""
        kind, prop = KINDS[turn % len(KINDS)]
        gen.large = turn // len(KINDS) % 2 == 0
        spec, q = query_of(gen, kind, prop)
        ops = [{"do": "get", "on": "o0", "q": q}]
        changes = [(field, act) for field in (O.STORED_DC if O.is_driven(spec) else O.STORED_DDS) for act in self.acts(field)]
        gen.rng.shuffle(changes)
        for field, act in changes[: gen.pick([4, 8, 12])]:
            ops.append(self.update(gen, "o0", field, act))
            ops.append({"do": "get", "on": "o0", "q": q})
        return {"objs": [spec], "ops": ops, "watch_live": True}

    def acts(self, field):
        if field == "offsets":
            return ["scale", "element"]
        return ["scale", "element", "swap", "reverse", "transfer"] + ["zero"] * (field != "durations")

    def update(self, gen, on, field, act):
        value = gen.pick([0.5, 0.9, 0.999]) if field == "offsets" else gen.pick([0.5, 2.0, 1.1, 1 + 1e-6])
        return {"do": "update", "on": on, "field": field, "act": act, "pos": gen.rng.randrange(130), "v": value}

    def generate(self, gen):
        rng = gen.rng
        if gen.index % 5 == 2:
            return self.each(gen, gen.index // 5)
        objs = [gen.creation()]
        if gen.chance(0.4):
            objs.append(gen.sibling(objs[0]) if gen.chance(0.6) else gen.creation())
        ops = []
        favourite = {}
        for _ in range(rng.randrange(4, 16)):
            k = rng.randrange(len(objs))
            on = "o%d" % k
            driven = O.is_driven(objs[k])
            roll = rng.random()
            if roll < 0.55:
                if k in favourite and gen.chance(0.6):
                    q = copy.deepcopy(favourite[k])
                else:
                    q = gen.call(objs[k], "f.out")
                    favourite[k] = q
                ops.append({"do": "get", "on": on, "q": q})
            elif roll < 0.85:
                field = gen.pick(O.STORED_DC if driven else O.STORED_DDS)
                ops.append(self.update(gen, on, field, gen.pick(self.acts(field))))
            else:
                ops.append({"do": "assign", "on": on, "set": self.assignment(gen, driven, objs[k])})
        return {"objs": objs, "ops": ops, "watch_live": True}

    def assignment(self, gen, driven, spec):
        rng = gen.rng
        roll = rng.random()
        if roll < 0.35:
            return {"name": gen.name()}
        if driven:
            new = gen.control()["kw"]
            n = len(O.plain(new["durations"]))
            full = {k: {"arr": [0.0] * n} for k in O.STORED_DC}
            for key in O.STORED_DC:
                if key in new:
                    full[key] = {"arr": O.plain(new[key])}
            return full
        if roll < 0.6:
            old = O.plain(spec["kw"]["duration"])
            return {"duration": old * gen.pick([1.5, 2.0, 1.0001]) if isinstance(old, (int, float)) else 10.0}
        new = gen.sequence()["kw"]
        full = {k: {"arr": O.plain(new[k])} for k in O.STORED_DDS}
        full["duration"] = new["duration"]
        return full

    def judge(self, plan, root):
        result = {"violations": [], "calls": 0, "faults": {}, "sig": [], "plan": plan}
        records, status = R.run_history(plan, root)
        stuck = self.stuck(records, status)
        if stuck:
            result["violations"].append(stuck)
            return result
        calls = [r for r in records if "base" in r]
        alone = R.baseline([r["base"] for r in calls], root)
        if alone is None:
            raise W.HarnessError("a single call exceeded the wall clock limit")
        signature = []
        state = {}
        telling = False
        for record in records:
            if "i" not in record:
                continue
            op = plan["ops"][record["i"]]
            on = op.get("on")
            if "mutated" in record:
                signature.append([on, record["mutated"], op.get("act")])
                state[on] = "changed" if state.get(on) else None
            elif "base" in record:
                signature.append([on, op["q"]["k"], op["q"].get("p"), shape(record["out"])])
                telling = telling or state.get(on) == "changed"
                state[on] = state.get(on) or "asked"
            for note in record.get("notes", []):
                result["violations"].append("op %d: %s" % (record["i"], note))
        for record, base in zip(calls, alone):
            op = plan["ops"][record["i"]]
            result["calls"] += 1
            compare(result, "op %d (%s)" % (record["i"], describe(op)), record["out"], base["out"])
        if telling:
            result["sig"].append(sha(signature))
        return result


ALL = {cls.ident: cls for cls in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C20)}
