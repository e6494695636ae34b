"""
Reference models, written from the documentation and independent of the package:
a decoder for the Q-CTRL expanded format, what it must contain, and the
realisation of a decoupling sequence as a driven control.
"""
import csv
import io
import json
import math

ALIASES = {
    "rabi_rate": "rabi_rates",
    "rabi_rates": "rabi_rates",
    "azimuthal_angle": "azimuthal_angles",
    "azimuthal_angles": "azimuthal_angles",
    "detuning": "detuning",
    "detunings": "detuning",
    "duration": "duration",
    "durations": "duration",
    "amplitude_x": "amplitude_x",
    "amplitude_y": "amplitude_y",
    "maximum_rabi_rate": "maximum_rabi_rate",
    "name": "name",
}


class Malformed(Exception):
    pass


def _number(text):
    if isinstance(text, bool) or text is None:
        raise Malformed("%r is not a number" % (text,))
    try:
        value = float(text)
    except (TypeError, ValueError):
        raise Malformed("%r is not a number" % (text,))
    if math.isnan(value) or math.isinf(value):
        raise Malformed("%r is not a finite number" % (text,))
    return value


def decode(text, file_type, coordinates):
    """Parses a document; returns {field: list, 'maximum_rabi_rate': float, 'name': ...}."""
    arrays = ["detuning", "duration"] + (
        ["amplitude_x", "amplitude_y"]
        if coordinates == "cartesian"
        else ["rabi_rates", "azimuthal_angles"]
    )
    if text is None:
        raise Malformed("the file does not exist")
    if file_type == "JSON":

        def constant(name):
            raise Malformed("%s is not valid JSON" % name)

        def pairs(items):
            keys = [ALIASES.get(k) for k, _ in items]
            if None in keys or len(set(keys)) != len(keys):
                raise Malformed("unexpected fields %s" % [k for k, _ in items])
            return dict(zip(keys, (v for _, v in items)))

        try:
            document = json.loads(text, parse_constant=constant, object_pairs_hook=pairs)
        except ValueError as error:
            raise Malformed("not a JSON document: %s" % error)
        if not isinstance(document, dict):
            raise Malformed("not a JSON object")
        result = {"name": document.pop("name", None)}
        if set(document) != set(arrays + ["maximum_rabi_rate"]):
            raise Malformed("fields are %s" % sorted(document))
        result["maximum_rabi_rate"] = _number(document["maximum_rabi_rate"])
        for key in arrays:
            if not isinstance(document[key], list):
                raise Malformed("%s is not a list" % key)
            result[key] = [_number(x) for x in document[key]]
        return result
    if text and not text.endswith("\n"):
        raise Malformed("the last row is incomplete")
    rows = list(csv.reader(io.StringIO(text, newline="")))
    if not rows:
        raise Malformed("the file is empty")
    titles = [ALIASES.get(t) for t in rows[0]]
    if sorted(str(t) for t in titles) != sorted(arrays + ["maximum_rabi_rate"]):
        raise Malformed("titles are %s" % rows[0])
    for row in rows[1:]:
        if len(row) != len(titles):
            raise Malformed("row %s has %d cells" % (row, len(row)))
    result = {"name": None}
    for i, key in enumerate(titles):
        result[key] = [_number(row[i]) for row in rows[1:]]
    return result


def expect_control(text, data, file_type, coordinates):
    """
    Complaint (or None) about a document that should hold the driven control with the
    given data: dict of durations, rabi_rates, azimuthal_angles, detunings, name.
    """
    try:
        got = decode(text, file_type, coordinates)
    except Malformed as error:
        return "malformed document: %s" % error
    rabi, angles = data["rabi_rates"], data["azimuthal_angles"]
    top = max(rabi)
    count = len(rabi)
    scaled = [r / top if top else 0.0 for r in rabi]
    for key in got:
        if key not in ("name", "maximum_rabi_rate") and len(got[key]) != count:
            return "%s has %d entries instead of %d" % (key, len(got[key]), count)
    peak = got["maximum_rabi_rate"]
    peaks = peak if isinstance(peak, list) else [peak]
    if file_type == "CSV" and len(peaks) != count:
        return "%d rows instead of %d" % (len(peaks), count)
    if any(p != top for p in peaks):
        return "maximum_rabi_rate is %s instead of %r" % (peaks[:3], top)
    for key, want in (("detuning", data["detunings"]), ("duration", data["durations"])):
        if got[key] != want:
            return "%s is %s instead of %s" % _first(key, got[key], want)
    if coordinates == "cartesian":
        for key, trig in (("amplitude_x", math.cos), ("amplitude_y", math.sin)):
            want = [s * trig(a) for s, a in zip(scaled, angles)]
            for g, w, s in zip(got[key], want, scaled):
                if abs(g - w) > 1e-13 * s:
                    return "%s is %r instead of %r" % (key, g, w)
    else:
        if got["azimuthal_angles"] != angles:
            return "%s is %s instead of %s" % _first("azimuthal_angles", got["azimuthal_angles"], angles)
        for g, w in zip(got["rabi_rates"], scaled):
            if abs(g - w) > 1e-14 * w:
                return "rabi_rates is %r instead of %r" % (g, w)
    if file_type == "JSON" and got["name"] != data["name"]:
        return "name is %r instead of %r" % (got["name"], data["name"])
    return None


def _first(key, got, want):
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return ("%s[%d]" % (key, i), repr(g), repr(w))
    return (key, got, want)


# ------------------------------------------------------ sequences as driven controls


def realise(seq, maximum_rabi_rate, maximum_detuning_rate):
    """
    The segments (duration, rabi, azimuth, detuning) of a sequence, or None if it cannot
    be realised.  seq: duration, offsets, rabi_rotations, azimuthal_angles, detuning_rotations.
    """
    total = seq["duration"]
    pulses = list(
        zip(
            seq["offsets"],
            seq["rabi_rotations"],
            seq["azimuthal_angles"],
            seq["detuning_rotations"],
        )
    )
    if not (maximum_rabi_rate > 0 and maximum_detuning_rate > 0):
        return None
    for _, rabi, _, det in pulses:
        if rabi < 0 or (rabi != 0 and det != 0):
            return None
    times = [p[0] for p in pulses]
    if any(b <= a for a, b in zip(times, times[1:])):
        return None
    segments = []
    clock = 0.0
    for offset, rabi, azim, det in pulses:
        width = rabi / maximum_rabi_rate if rabi else abs(det) / maximum_detuning_rate
        start = offset - width / 2
        # pulses at the two ends of the sequence are shifted inwards
        if offset == 0:
            start = 0.0
        elif offset == total:
            start = total - width
        if start < clock - 1e-8 * total or start + width > total * (1 + 1e-8):
            return None
        segments.append((start - clock, 0.0, 0.0, 0.0))
        if width > 0:
            segments.append(
                (width, rabi / width, azim if rabi else 0.0, det / width if not rabi else 0.0)
            )
        clock = start + width
    segments.append((total - clock, 0.0, 0.0, 0.0))
    return segments


def merge(segments, total):
    """Drops empty segments and joins neighbouring idle ones."""
    result = []
    for duration, rabi, azim, det in segments:
        if duration <= 1e-11 * total:
            continue
        if rabi == 0 and det == 0:
            azim = 0.0
            if result and result[-1][1] == 0 and result[-1][3] == 0:
                result[-1] = (result[-1][0] + duration, 0.0, 0.0, 0.0)
                continue
        result.append((duration, rabi, azim, det))
    return result


def expect_sequence(text, seq, rates, file_type, coordinates):
    """Complaint (or None) about a document that should hold the realised sequence."""
    try:
        got = decode(text, file_type, coordinates)
    except Malformed as error:
        return "malformed document: %s" % error
    segments = realise(seq, *rates)
    if segments is None:
        return "the sequence has no driven equivalent but was exported"
    total = seq["duration"]
    want = merge(segments, total)
    count = len(got["duration"])
    peak = got["maximum_rabi_rate"]
    peaks = peak if isinstance(peak, list) else [peak] * max(count, 1)
    if not count or any(len(got[k]) != count for k in got if isinstance(got[k], list)):
        return "lists of different lengths"
    top = max(s[1] for s in want)
    if any(abs(p - top) > 1e-9 * top for p in peaks):
        return "maximum_rabi_rate is %r instead of %r" % (peaks[0], top)
    rows = []
    for i in range(count):
        if coordinates == "cartesian":
            x, y = got["amplitude_x"][i] * peaks[i], got["amplitude_y"][i] * peaks[i]
            rabi, azim = math.hypot(x, y), math.atan2(y, x)
        else:
            rabi, azim = got["rabi_rates"][i] * peaks[i], got["azimuthal_angles"][i]
        rows.append((got["duration"][i], rabi, azim, got["detuning"][i]))
    rows = merge(rows, total)
    if len(rows) != len(want):
        return "%d segments instead of %d" % (len(rows), len(want))
    for i, (g, w) in enumerate(zip(rows, want)):
        slack = 1e-9 + 1e-13 * total / w[0]
        if abs(g[0] - w[0]) > 1e-9 * w[0] + 1e-13 * total:
            return "segment %d lasts %r instead of %r" % (i, g[0], w[0])
        if abs(g[1] - w[1]) > slack * max(abs(w[1]), 1e-300):
            return "segment %d has Rabi rate %r instead of %r" % (i, g[1], w[1])
        if abs(g[3] - w[3]) > slack * max(abs(w[3]), 1e-300):
            return "segment %d has detuning %r instead of %r" % (i, g[3], w[3])
        if w[1] and abs(math.remainder(g[2] - w[2], 2 * math.pi)) > 1e-9:
            return "segment %d has azimuthal angle %r instead of %r" % (i, g[2], w[2])
        if w[1] and coordinates != "cartesian" and g[2] != w[2]:
            return "segment %d has azimuthal angle %r instead of %r" % (i, g[2], w[2])
    if file_type == "JSON" and got["name"] != seq["name"]:
        return "name is %r instead of %r" % (got["name"], seq["name"])
    return None
