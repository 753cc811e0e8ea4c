"""Plain values, comparison of values, and the encoding of cases for replay files."""
import datetime
import enum
import struct as _st
import uuid


class _Absent:
    """Stands for a field that isn't there."""

    def __repr__(self):
        return "ABSENT"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return "ABSENT"


ABSENT = _Absent()


class Violation(AssertionError):
    """The property does not hold for this case."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Int(int):
    """As good as an int."""


class Str(str):
    """As good as a str."""


ALIKE = {int: Int, str: Str}


def same(a, b):
    """Are two plain values equal, strictly (types, float bits, time zones)?"""
    if a is b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        if a != a or b != b:
            return a != a and b != b
        return _st.pack(">d", a) == _st.pack(">d", b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime):
        if (a.tzinfo is None) != (b.tzinfo is None):
            return False
        return (
            a.replace(tzinfo=None) == b.replace(tzinfo=None)
            and a.utcoffset() == b.utcoffset()
            and a.fold == b.fold
        )
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    for exact, alike in ALIKE.items():
        a, b = (exact(x) if type(x) is alike else x for x in (a, b))
    if type(a) is not type(b):
        return False
    return a == b


class Falsy(dict):
    """A context that is false."""

    def __bool__(self):
        return False

    def __repr__(self):
        return "Falsy(%s)" % super().__repr__()


def plain(v):
    """Turn anything binobj returns into plain values."""
    import binobj
    from binobj.fields import NOT_PRESENT

    if v is NOT_PRESENT:
        return ABSENT
    if isinstance(v, binobj.Struct):
        return {n: plain(v[n]) for n in v}
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def enc(v):
    """Encode a case as JSON-able data."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if v is ABSENT:
        return {"$absent": 1}
    if isinstance(v, enum.Enum):
        raise TypeError(v)
    if isinstance(v, int):
        return v if abs(v) < 2**53 else {"$int": hex(v)}
    if isinstance(v, float):
        return {"$float": v.hex() if v == v else "nan:" + _st.pack(">d", v).hex()}
    if isinstance(v, (bytes, bytearray)):
        return {"$bytes": bytes(v).hex()}
    if isinstance(v, tuple):
        return {"$tuple": [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, Falsy):
        return {"$falsy": enc(dict(v))}
    if isinstance(v, dict):
        if all(isinstance(k, str) and not k.startswith("$") for k in v):
            return {k: enc(x) for k, x in v.items()}
        return {"$dict": [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, datetime.datetime):
        off = v.utcoffset()
        us = None if off is None else off // datetime.timedelta(microseconds=1)
        return {
            "$dt": [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond],
            "off": us,
            "fold": v.fold,
        }
    if isinstance(v, uuid.UUID):
        return {"$uuid": v.hex}
    raise TypeError(f"can't encode {v!r}")


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if not isinstance(v, dict):
        return v
    if "$absent" in v:
        return ABSENT
    if "$falsy" in v:
        return Falsy(dec(v["$falsy"]))
    if "$int" in v:
        return int(v["$int"], 16)
    if "$float" in v:
        t = v["$float"]
        if t.startswith("nan:"):
            return _st.unpack(">d", bytes.fromhex(t[4:]))[0]
        return float.fromhex(t)
    if "$bytes" in v:
        return bytes.fromhex(v["$bytes"])
    if "$tuple" in v:
        return tuple(dec(x) for x in v["$tuple"])
    if "$dict" in v:
        return {dec(k): dec(x) for k, x in v["$dict"]}
    if "$dt" in v:
        tz = v["off"]
        if tz is not None:
            tz = datetime.timezone(datetime.timedelta(microseconds=tz))
            if tz.utcoffset(None) == datetime.timedelta(0):
                tz = datetime.timezone.utc
        return datetime.datetime(*v["$dt"], tzinfo=tz, fold=v["fold"])
    if "$uuid" in v:
        return uuid.UUID(hex=v["$uuid"])
    return {k: dec(x) for k, x in v.items()}
