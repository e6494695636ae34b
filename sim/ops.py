"""
The vocabulary of plans: object specifications, calls, their execution on the
real package, canonical results, and their generation from a PRNG.
"""
import math
import os
import re

import numpy as np

PI = math.pi
FORMAT = "Q-CTRL expanded"

STORED_DC = ("durations", "rabi_rates", "azimuthal_angles", "detunings")
STORED_DDS = ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations")
PROPS = (
    "number_of_segments",
    "maximum_rabi_rate",
    "maximum_detuning",
    "amplitude_x",
    "amplitude_y",
    "angles",
    "directions",
    "times",
    "maximum_duration",
    "minimum_duration",
    "duration",
)
DRIVEN = (
    "new_primitive_control",
    "new_bb1_control",
    "new_sk1_control",
    "new_scrofulous_control",
    "new_corpse_control",
    "new_corpse_in_bb1_control",
    "new_corpse_in_sk1_control",
    "new_corpse_in_scrofulous_control",
    "new_wamf1_control",
)
COUNTED = (
    "new_carr_purcell_sequence",
    "new_cpmg_sequence",
    "new_uhrig_sequence",
    "new_periodic_sequence",
)

# ------------------------------------------------------------------ execution


def val(x):
    """Decodes a plan value: tagged dictionaries stand for non-JSON types."""
    if isinstance(x, dict):
        ((tag, v),) = x.items()
        if tag == "arr":
            return np.array(v, dtype=float)
        if tag == "iarr":
            return np.array(v, dtype=int)
        if tag == "view":
            # non-contiguous input
            return np.array([[a, -1.0] for a in v], dtype=float).reshape(-1, 2)[:, 0]
        if tag == "tuple":
            return tuple(v)
        if tag == "ints":
            return [int(a) if a == int(a) and abs(a) < 1e9 else a for a in v]
        if tag == "i64":
            return np.int64(v)
        if tag == "f64":
            return np.float64(v)
        if tag == "bytes":
            return v.encode()
        raise ValueError("unknown tag " + tag)
    return x


def build(pkg, spec, inputs=None):
    """Creates the object of a specification with the package under test."""
    kwargs = {k: val(v) for k, v in spec["kw"].items()}
    if inputs is not None:
        inputs.extend(kwargs.values())
    return getattr(pkg, spec["fn"])(**kwargs)


def is_dc(obj):
    return type(obj).__name__ == "DrivenControl"


def is_dds(obj):
    return type(obj).__name__ == "DynamicDecouplingSequence"


def data_of(obj):
    """Specification of a new object holding the current data of obj."""
    if is_dc(obj):
        kw = {k: {"arr": [float(x) for x in getattr(obj, k)]} for k in STORED_DC}
        kw["name"] = obj.name
        return {"fn": "DrivenControl", "kw": kw}
    kw = {}
    for k in STORED_DDS:
        a = getattr(obj, k)
        tag = "iarr" if a.dtype.kind in "iu" else "arr"
        kw[k] = {tag: [x.item() for x in a]}
    duration = obj.duration
    if isinstance(duration, np.generic):
        tag = {"i": "i64", "u": "i64", "f": "f64"}[duration.dtype.kind]
        duration = {tag: duration.item()}
    kw["duration"] = duration
    kw["name"] = obj.name
    return {"fn": "DynamicDecouplingSequence", "kw": kw}


def query(pkg, obj, q, root):
    """Performs one call on an object."""
    kind = q["k"]
    if kind == "prop":
        return getattr(obj, q["p"])
    if kind == "export":
        return obj.export(**{k: val(v) for k, v in q.get("kw", {}).items()})
    if kind == "str":
        return str(obj)
    if kind == "repr":
        return repr(obj)
    if kind == "convert":
        return pkg.convert_dds_to_driven_control(
            obj, **{k: val(v) for k, v in q["kw"].items()}
        )
    if kind == "file":
        path = q["given"] if "given" in q else os.path.join(root, q["path"])
        obj.export_to_file(path, **{k: val(v) for k, v in q["kw"].items()})
        return FileResult(os.path.join(root, q["path"]))
    raise ValueError("unknown query " + kind)


class FileResult:
    """The file an export left, read when the result is looked at first."""

    def __init__(self, path):
        self.path = path
        self.text = read_file(path)


def read_file(path):
    try:
        with open(path, "rb") as handle:
            return handle.read().decode("utf-8", "surrogateescape")
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
        return None


def canon(value):
    """JSON image of a result that keeps everything a caller can rely on."""
    if value is None or isinstance(value, (bool, np.bool_)):
        return ["v", None if value is None else bool(value)]
    if isinstance(value, str):
        return ["s", str(value)]
    if isinstance(value, (int, np.integer)):
        return ["i", int(value)]
    if isinstance(value, (float, np.floating)):
        return ["f", float(value)]
    if isinstance(value, (complex, np.complexfloating)):
        return ["c", [float(value.real), float(value.imag)]]
    if isinstance(value, np.ndarray):
        if value.dtype.kind == "c":
            flat = [x for z in value.ravel() for x in (float(z.real), float(z.imag))]
        elif value.dtype.kind == "O":
            flat = [canon(x) for x in value.ravel()]
        else:
            flat = [x.item() if hasattr(x, "item") else x for x in value.ravel()]
        return ["nd", value.dtype.kind, list(value.shape), flat]
    if isinstance(value, FileResult):
        return ["file", value.text]
    if isinstance(value, dict):
        return ["d", [[str(k), canon(value[k])] for k in sorted(value, key=str)]]
    if isinstance(value, (list, tuple)):
        return ["l", [canon(x) for x in value]]
    if is_dc(value):
        return ["dc", [[k, canon(getattr(value, k, "<missing>"))] for k in STORED_DC + ("name",)]]
    if is_dds(value):
        return [
            "dds",
            [[k, canon(getattr(value, k, "<missing>"))] for k in ("duration", "name") + STORED_DDS],
        ]
    if isinstance(value, BaseException):
        name = type(value).__name__
        text = str(value) if name in ("ArgumentsValueError", "QctrlError") else None
        if isinstance(value, OSError):
            text = str(value.errno)
        return ["exc", name, text]
    return ["?", type(value).__name__]


NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def close(a, b, tol=1e-12):
    """Equality of canonical results; floats may differ by rounding of a reordered sum."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return True
        if math.isinf(a) or math.isinf(b) or a != a or b != b:
            return False
        return abs(a - b) <= tol * max(abs(a), abs(b))
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        if NUMBER.sub("#", a) != NUMBER.sub("#", b):
            return False
        return all(
            close(float(x), float(y), 1e-12) or abs(float(x) - float(y)) < 1e-15
            for x, y in zip(NUMBER.findall(a), NUMBER.findall(b))
        )
    if isinstance(a, list) and isinstance(b, list):
        if a == b:
            return True
        if len(a) != len(b):
            return False
        if a and isinstance(a[0], float) and all(isinstance(x, float) for x in a + b):
            scale = max((abs(x) for x in a + b if x == x and not math.isinf(x)), default=0.0)
            return all(
                x == y or (x != x and y != y) or abs(x - y) <= 1e-15 * scale or close(x, y, tol)
                for x, y in zip(a, b)
            )
        return all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def short(value, limit=300):
    text = repr(value)
    return text if len(text) <= limit else text[: limit - 3] + "..."


def mutate(value, how):
    """Changes a result the way a caller may; returns what was changed or None."""
    if isinstance(value, np.ndarray):
        return _mutate_array(value, how)
    if is_dc(value) or is_dds(value):
        fields = STORED_DC if is_dc(value) else STORED_DDS
        field = fields[how["pick"] % 4]
        array = getattr(value, field)
        if _mutate_array(array, how):
            return field
        return None
    if isinstance(value, dict):
        keys = sorted(value)
        if not keys:
            return None
        key = keys[how["pick"] % len(keys)]
        if how["act"] == "clear":
            value.clear()
            return "cleared"
        part = value[key]
        if isinstance(part, list) and part and isinstance(part[0], dict):
            entry = part[how["pos"] % len(part)]
            for name in entry:
                entry[name] = how["v"]
            if how["act"] == "permute":
                part.pop()
            return key
        del value[key]
        return key
    return None


def _mutate_array(array, how):
    if array.size == 0 or not array.flags.writeable:
        return None
    flat = array.reshape(-1) if array.flags.c_contiguous else array
    if array.ndim != 1:
        array[...] = array * how["v"] + 1.0
        return "all"
    act = how["act"]
    if act == "set":
        flat[how["pos"] % array.size] = how["v"]
    elif act in ("fill", "clear"):
        flat[...] = how["v"]
    elif act == "permute":
        flat[...] = np.roll(flat, 1 + how["pos"] % max(1, array.size - 1))
    else:
        flat[...] = flat * how["v"]
    return act


# ----------------------------------------------------------------- generation


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.large = False  # prefer objects with many segments or pulses

    def pick(self, items):
        return items[self.rng.randrange(len(items))]

    def chance(self, p):
        return self.rng.random() < p

    def log_uniform(self, low, high):
        return 10 ** self.rng.uniform(math.log10(low), math.log10(high))

    NAMES = (
        None,
        None,
        "pulse",
        "a custom control",
        "pulse 2",
        "",
        'quote " and, comma\nnewline',
        "π-pulse ✓",
        "name",
        "NaN",
        "%s {0} \\n \x00\x1f\ud800",
        "long " * 80,
    )

    def name(self):
        return self.pick(self.NAMES)

    def number(self):
        """A float that needs all its digits."""
        rng = self.rng
        return self.pick(
            [
                rng.random(),
                rng.uniform(-10, 10),
                rng.gauss(0, 1) * 1e6,
                rng.random() * 1e-9,
                1 / 3,
                PI / 2,
                0.1,
                float(rng.randrange(1, 9)),
            ]
        )

    def container(self, values):
        values = [float(v) for v in values]
        roll = self.rng.random()
        if roll < 0.6:
            return {"arr": values}
        if roll < 0.8:
            return values
        if roll < 0.88:
            return {"tuple": values}
        if roll < 0.92 and all(v == int(v) and abs(v) < 1e9 for v in values):
            return {"iarr": [int(v) for v in values]}
        if roll < 0.95:
            return {"ints": values}
        return {"view": values}

    def size(self, big=False):
        roll = self.rng.random()
        if self.large and roll > 0.3:
            return self.rng.randrange(25, 65) if roll < 0.8 else self.rng.randrange(65, 130)
        if big and roll < 0.006:
            return self.pick([1000, 1024, 2048, self.rng.randrange(900, 4200)])
        if big and roll < 0.02:
            return self.rng.randrange(360, 900)
        if big and roll < 0.2:
            return self.rng.randrange(90, 360)
        if roll < 0.3:
            return 1
        if roll < 0.8:
            return self.rng.randrange(2, 7)
        if roll < 0.95:
            return self.rng.randrange(7, 24)
        return self.rng.randrange(24, 130)

    def control(self, big=False, size=None):
        rng = self.rng
        n = size or self.size(big)
        scale = self.log_uniform(1e-9, 1e3)
        rate = self.pick([1.0, 2 * PI, self.log_uniform(1e-3, 1e9)])
        if self.chance(0.04):
            rate = self.pick([1e-140, 1e-60, 1e-18, 1e18, 1e60, 1e140])
        kw = {"durations": self.container(scale * rng.uniform(0.05, 1) for _ in range(n))}
        style = rng.random()
        if style < 0.12:
            rabi = None if self.chance(0.5) else [0.0] * n
        elif style < 0.2:
            rabi = [rate] * n
        elif style < 0.3:
            rabi = [rate * self.pick([0.0, 1.0, 0.5, 1e-9]) for _ in range(n)]
        else:
            rabi = [rate * rng.random() for _ in range(n)]
        if rabi is not None:
            kw["rabi_rates"] = self.container(rabi)
        if self.chance(0.85):
            kw["azimuthal_angles"] = self.container(
                self.pick([rng.uniform(-7, 7), PI / 2, PI, 0.0]) for _ in range(n)
            )
        if self.chance(0.8):
            kw["detunings"] = self.container(
                rate * self.pick([rng.uniform(-2, 2), 0.0, -1.0, -0.0]) for _ in range(n)
            )
        kw["name"] = self.name()
        if kw["name"] is None and self.chance(0.5):
            del kw["name"]
        return {"fn": "DrivenControl", "kw": kw}

    def sequence(self, size=None, scale=None):
        """A well-formed sequence whose pulses are apart by at least 0.3 of the mean gap."""
        rng = self.rng
        if size is None:
            size = self.rng.randrange(8, 40) if self.chance(0.7 if self.large else 0.04) else self.rng.randrange(0, 8)
        n = size
        duration = scale or self.log_uniform(1e-9, 1e3)
        if self.chance(0.1):
            duration = float(rng.randrange(1, 9))
        slots = [(i + 0.5 + rng.uniform(-0.3, 0.3)) / max(n, 1) for i in range(n)]
        if n and self.chance(0.25):
            slots[0] = 0.0
        if n > 1 and self.chance(0.25):
            slots[-1] = 1.0
        rabi, azim, det = [], [], []
        for _ in range(n):
            kind = rng.random()
            angle = self.pick([PI, PI / 2, rng.uniform(0.2, 6.0)])
            rabi.append(angle if kind < 0.6 else 0.0)
            det.append(
                self.pick([1, -1]) * angle if 0.6 <= kind < 0.9 else 0.0
            )
            azim.append(self.pick([0.0, PI / 2, PI, rng.uniform(-4, 4)]))
        kw = {
            "duration": duration,
            "offsets": self.container(min(s * duration, duration) for s in slots),
            "rabi_rotations": self.container(rabi),
            "azimuthal_angles": self.container(azim),
            "detuning_rotations": self.container(det),
            "name": self.name(),
        }
        return {"fn": "DynamicDecouplingSequence", "kw": kw}

    def rates_for(self, spec, feasible=True):
        """Maximum rates at which a generated sequence clearly can (or cannot) be realised."""
        kw = spec["kw"]
        duration = plain(kw["duration"])
        offsets = [float(x) for x in plain(kw["offsets"])]
        rabi, det = plain(kw["rabi_rotations"]), plain(kw["detuning_rotations"])
        return self._rates(duration, offsets, rabi, det, feasible)

    def _rates(self, duration, offsets, rabi, det, feasible):
        base = PI / duration
        if not offsets:
            return base, base
        points = sorted(set([0.0, duration] + list(offsets)))
        gap = min(b - a for a, b in zip(points, points[1:])) if len(points) > 1 else duration
        angle = max([abs(x) for x in rabi] + [abs(x) for x in det] + [1e-3])
        # a pulse takes angle / rate; end pulses are shifted inwards by half of it
        share = self.rng.uniform(0.01, 0.6) if feasible else None
        if feasible:
            rate = angle / (gap * share)
            return rate, rate * self.pick([1.0, 1.5, 1.0])
        rate = angle / (gap * self.rng.uniform(4, 40))
        return rate, rate

    def driven_factory(self):
        rng = self.rng
        fn = self.pick(DRIVEN)
        kw = {
            "rabi_rotation": self.pick([PI, PI / 2, PI / 4, PI, PI / 2, rng.uniform(0.1, 6)]),
            "maximum_rabi_rate": self.pick([1.0, 2 * PI, 1, self.log_uniform(1e-2, 1e7)]),
        }
        if self.chance(0.7):
            kw["azimuthal_angle"] = self.pick([0.0, PI / 2, -PI / 3, 0.5, rng.uniform(-3, 3)])
        if self.chance(0.6):
            kw["name"] = self.name()
        return {"fn": fn, "kw": kw}

    def gaussian(self):
        duration = self.pick([0.4, 0.25, 1.0, 2.0, 1e-6])
        count = self.pick([5, 7, 8, 20, 25, 31]) if not self.large else self.pick([31, 60, 90, 150])
        least = math.sqrt(2 * PI) / (0.1 * duration)
        return {
            "fn": "new_modulated_gaussian_control",
            "kw": {
                "maximum_rabi_rate": least * self.pick([0.5, 1.0, 1.01, 2.0, 7.7]),
                "minimum_segment_duration": duration / count,
                "duration": duration,
                "modulation_frequency": self.pick([0.0, 0, 1.0, 2.5, 10.0, 33.3]) / duration,
            },
        }

    def sequence_factory(self):
        duration = self.pick([1.0, 10, 1e-6, 2.5, self.log_uniform(1e-8, 1e2)])
        kw = {"duration": duration}
        roll = self.rng.random()
        if roll < 0.1:
            fn = "new_ramsey_sequence"
        elif roll < 0.2:
            fn = "new_spin_echo_sequence"
        elif roll < 0.6:
            fn = self.pick(COUNTED)
            kw["offset_count"] = self.rng.randrange(13, 45) if self.chance(0.7 if self.large else 0.1) else self.pick([1, 2, 3, 4, 5, 8, 12])
        elif roll < 0.7:
            fn = "new_walsh_sequence"
            kw["paley_order"] = self.pick([self.rng.randrange(21, 80)] * 4 + [self.rng.randrange(80, 2001)]) if self.large and self.chance(0.7) else self.pick([1, 2, 3, 5, 6, 7, 12, 15, 20])
        elif roll < 0.82:
            fn = "new_quadratic_sequence"
            most = 9 if self.large else 5
            kw["inner_offset_count"] = self.rng.randrange(1, most)
            kw["outer_offset_count"] = self.rng.randrange(1, most)
        elif roll < 0.91:
            fn = "new_x_concatenated_sequence"
            kw["concatenation_order"] = self.pick([1, 2, 2, 3, 3, 4, 5]) if not self.large else self.pick([3, 5, 6, 7, 8, 9])
        else:
            fn = "new_xy_concatenated_sequence"
            kw["concatenation_order"] = self.pick([1, 1, 2, 2, 3]) if not self.large else self.pick([2, 3, 4])
        if self.chance(0.5):
            kw["pre_post_rotation"] = self.chance(0.6)
        if self.chance(0.6):
            kw["name"] = self.name()
        return {"fn": fn, "kw": kw}

    def creation(self):
        """Any way to create an object."""
        roll = self.rng.random()
        if self.large and self.chance(0.5):
            return self.control() if roll < 0.6 else self.sequence()
        if roll < 0.3:
            return self.control()
        if roll < 0.5:
            return self.sequence()
        if roll < 0.73:
            return self.driven_factory()
        if roll < 0.78:
            return self.gaussian()
        return self.sequence_factory()

    FUNCTIONS = (
        ("DrivenControl", "DynamicDecouplingSequence", "new_modulated_gaussian_control")
        + DRIVEN
        + COUNTED
        + (
            "new_ramsey_sequence",
            "new_spin_echo_sequence",
            "new_walsh_sequence",
            "new_quadratic_sequence",
            "new_x_concatenated_sequence",
            "new_xy_concatenated_sequence",
        )
    )

    def any_function(self, turn=None):
        """A creation by a function that is picked in turn (turn given) or with equal chances."""
        wanted = self.pick(self.FUNCTIONS) if turn is None else self.FUNCTIONS[turn % len(self.FUNCTIONS)]
        while True:
            spec = self.creation()
            if spec["fn"] == wanted:
                return spec

    # integer arguments and below what they may vary
    COUNTS = {"offset_count": 40, "paley_order": 40, "inner_offset_count": 6, "outer_offset_count": 6, "concatenation_order": 5}

    def vary(self, spec):
        """Arguments that were never used before."""
        import copy

        new = copy.deepcopy(spec)
        for key, value in new["kw"].items():
            ordinary = plain(value)
            if key in self.COUNTS and isinstance(ordinary, int) and self.chance(0.5):
                new["kw"][key] = self.rng.randrange(1, self.COUNTS[key])
            elif isinstance(ordinary, float):
                new["kw"][key] = ordinary * (1 - 1e-3 * self.rng.random())
            elif isinstance(ordinary, list) and ordinary and all(isinstance(x, float) for x in ordinary):
                if key == "offsets":
                    continue
                factor = 1 - 1e-3 * self.rng.random()
                new["kw"][key] = {"arr": [x * factor for x in ordinary]}
        if self.chance(0.3):
            new["kw"]["name"] = "n%d" % self.rng.randrange(1 << 40)
        return new

    def sibling(self, spec):
        """A specification that differs from spec in one detail."""
        import copy

        rng = self.rng
        new = copy.deepcopy(spec)
        kw = new["kw"]
        keys = sorted(k for k in kw if k != "name")
        roll = rng.random()
        if roll < 0.2:
            kw["name"] = self.pick([n for n in self.NAMES if n != kw.get("name")] + [None])
            return new
        key = self.pick(keys)
        value = kw[key]
        values = plain(value)
        if isinstance(values, list):
            if not values:
                kw["name"] = "sibling"
                return new
            i = rng.randrange(len(values))
            if roll < 0.5 and len(values) > 1:
                j = rng.randrange(len(values))
                if key != "offsets":
                    values[i], values[j] = values[j], values[i]
                else:
                    values[i] = values[i] * (1 - 1e-7)
            else:
                factor = self.pick([0.5, 1 - 1e-4, 1 - 1e-7, 1 - 1e-10])
                values[i] = values[i] * factor if key != "offsets" else values[i] * (1 - 1e-7)
            kw[key] = values if isinstance(value, list) else {list(value)[0]: values}
            return new
        if isinstance(values, bool):
            kw[key] = not values
        elif isinstance(values, int):
            kw[key] = self.pick([values + 1, float(values), {"i64": values}, values])
        elif isinstance(values, float):
            options = [
                values * 1.25,
                values * (1 + 1e-4),
                values * (1 + 1e-7),
                values * (1 + 1e-10),
                {"f64": values},
            ]
            if key in ("azimuthal_angle",):
                options += [values + 2 * PI, -values]
            if values == int(values):
                options.append(int(values))
            kw[key] = self.pick(options)
        return new

    def bad_creation(self):
        """A creation that must be rejected."""
        rng = self.rng
        roll = rng.randrange(6)
        if roll == 0:
            spec = self.control(size=3)
            spec["kw"]["durations"] = {"arr": [1.0, -1.0, 2.0]}
            return spec
        if roll == 1:
            spec = self.control(size=3)
            spec["kw"]["rabi_rates"] = {"arr": [1.0, 2.0]}
            return spec
        if roll == 2:
            spec = self.control(size=2)
            spec["kw"]["rabi_rates"] = {"arr": [1.0, -2.0]}
            return spec
        if roll == 3:
            spec = self.driven_factory()
            spec["kw"]["maximum_rabi_rate"] = -1.0
            return spec
        if roll == 4:
            spec = self.sequence_factory()
            spec["kw"]["duration"] = -1.0
            return spec
        spec = self.sequence(size=2)
        spec["kw"]["offsets"] = {"arr": [0.0, 2.0 * plain(spec["kw"]["duration"])]}
        return spec

    BAD_NAMES = {
        "file_format": ("Q-CTRL", "q-ctrl expanded", "", None, "Q-CTRL expanded ", "CSV", 0),
        "file_type": ("csv", "Json", "", None, "XML", "CSV ", "TXT", 1, True),
        "coordinates": ("polar", "CARTESIAN", "Cylindrical", "", None, "cartesian ", 0),
    }

    def file_kw(self, explicit=False):
        kw = {}
        if explicit or self.chance(0.85):
            kw["file_type"] = self.pick(["CSV", "JSON"])
        if explicit or self.chance(0.7):
            kw["coordinates"] = self.pick(["cylindrical", "cartesian"])
        if explicit or self.chance(0.3):
            kw["file_format"] = FORMAT
        return kw

    def plot_kw(self):
        kw = {}
        if self.chance(0.6):
            kw["coordinates"] = self.pick(["cylindrical", "cartesian"])
        if self.chance(0.6):
            kw["dimensionless_rabi_rate"] = self.chance(0.5)
        if self.chance(0.05):
            kw["coordinates"] = "polar"
        return kw

    def convert_kw(self, spec):
        if spec["fn"] == "DynamicDecouplingSequence":
            rabi, det = self.rates_for(spec, feasible=self.chance(0.9))
        else:
            duration = plain(spec["kw"]["duration"])
            if not isinstance(duration, (int, float)) or duration <= 0:
                duration = 1.0
            rabi = det = self.pick([1e4, 300.0, 1e6]) / duration
        kw = {"maximum_rabi_rate": rabi, "maximum_detuning_rate": det}
        if self.chance(0.4):
            # up to longer than the pulses and their distances
            kw["minimum_segment_duration"] = self.pick([0.0, 0.0, 0.1, 0.5, 2.0, 10.0]) / rabi
        if self.chance(0.4):
            kw["name"] = self.name()
        return kw

    def call(self, spec, path=None, files=True):
        """A call on an object created from spec."""
        roll = self.rng.random()
        driven = spec["fn"] in DRIVEN + ("DrivenControl", "new_modulated_gaussian_control")
        if files and path and roll < 0.3:
            kw = self.file_kw()
            if not driven:
                conv = self.convert_kw(spec)
                kw["maximum_rabi_rate"] = conv["maximum_rabi_rate"]
                kw["maximum_detuning_rate"] = conv["maximum_detuning_rate"]
            if self.chance(0.06):
                bad = self.pick(sorted(self.BAD_NAMES))
                kw[bad] = self.pick(self.BAD_NAMES[bad])
            return {"k": "file", "path": path, "kw": kw}
        if driven:
            if roll < 0.7:
                return {"k": "prop", "p": self.pick(PROPS)}
            if roll < 0.84:
                return {"k": "export", "kw": self.plot_kw()}
            return {"k": self.pick(["str", "repr"])}
        if roll < 0.65:
            return {"k": "convert", "kw": self.convert_kw(spec)}
        if roll < 0.8:
            return {"k": "export", "kw": {}}
        return {"k": self.pick(["str", "repr"])}


def plain(value):
    """The JSON payload of a plan value."""
    if isinstance(value, dict):
        ((_, inner),) = value.items()
        return list(inner) if isinstance(inner, (list, tuple)) else inner
    return list(value) if isinstance(value, list) else value


def is_driven(spec):
    return spec["fn"] in DRIVEN + ("DrivenControl", "new_modulated_gaussian_control")
