"""C12: timestamps denote the same instant at the declared resolution."""
import datetime
import io
import os
import time
import warnings
import zoneinfo

import binobj
from binobj import errors, fields
from hypothesis import strategies as st

from .. import company, gen, ref, spec
from ..common import eq, eq_bytes, raising
from ..runner import Sub
from ..values import check

RULE = (
    "Instants over all of datetime's range (with an emphasis on the limits of each width,"
    " the epoch, and time zone transitions), every resolution, widths of 1 to 16 bytes,"
    " both signednesses, all byte orders, fixed-offset and named zones, and naive"
    " datetimes under several process time zones."
    " Fields as wide as another field says are dumped and loaded without a warning."
    " Several different fields also write and read each other's values in turn. Oracle: exact rational arithmetic on"
    " days and seconds, and zoneinfo. Non-trivial: an instant other than a whole second of"
    " UTC, or one that doesn't fit."
)

UTC = datetime.timezone.utc
ZONES = [
    "UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe",
    "Pacific/Apia", "America/St_Johns", "Africa/Monrovia", "Asia/Kathmandu",
    "Pacific/Kiritimati",
]


class local_zone:
    """Run a block with another process time zone."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        time.tzset()

    def __exit__(self, *_):
        if self.old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self.old
        time.tzset()


def field(f):
    return spec.Builder().field({"k": "ts", **f})


def limits(f):
    n = 8 * f["size"]
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if f["signed"] else (0, (1 << n) - 1)


def micros(dt):
    d = dt - ref.EPOCH
    return (d.days * 86400 + d.seconds) * 10**6 + d.microseconds


def units(us, f):
    n = abs(us) * ref.UNITS[f["res"]] // 10**6
    return -n if us < 0 else n


def dump(f, dt, us):
    """Dump a datetime that stands for `us` microseconds since the epoch."""
    fld = field(f)
    n = units(us, f)
    lo, hi = limits(f)
    s = io.BytesIO()
    if not lo <= n <= hi:
        with raising(errors.SerializationError, "dumping %r to %r", dt, f):
            fld.to_stream(s, dt)
        eq_bytes(s.getvalue(), b"", "after rejecting %r", dt)
        return None
    fld.to_stream(s, dt)
    eq_bytes(s.getvalue(), ref.int_bytes(n, f["size"], f["signed"], f["endian"]),
             "%r (%d units) dumped by %r" % (dt, n, f))
    eq_bytes(fld.to_bytes(dt), s.getvalue(), "to_bytes(%r)", dt)
    return n


def aware(case):
    f = case["f"]
    zone = case["zone"]
    tz = zoneinfo.ZoneInfo(zone) if isinstance(zone, str) else datetime.timezone(
        datetime.timedelta(seconds=zone))
    dt = ref.EPOCH + datetime.timedelta(microseconds=case["us"])
    dt = dt.astimezone(tz)
    with local_zone(case["local"]):
        n = dump(f, dt, case["us"])
        if n is not None:
            loading(f, n, case["local"])
    return n is None or bool(case["us"] % 10**6) or zone not in ("UTC", 0)


def naive(case):
    f = case["f"]
    dt = datetime.datetime(*case["wall"], fold=case["fold"])
    with local_zone(case["local"]):
        us = micros(dt.replace(tzinfo=zoneinfo.ZoneInfo(case["local"])))
        n = dump(f, dt, us)
        if n is not None:
            loading(f, n, case["local"])
    return True


def loading(f, n, local):
    """n units load to exactly that instant, and are dumped again."""
    fld = field(f)
    data = ref.int_bytes(n, f["size"], f["signed"], f["endian"])
    u = ref.UNITS[f["res"]]
    us = round(ref.Fraction(n * 10**6, u))
    try:
        want = ref.EPOCH + datetime.timedelta(microseconds=us)
        zone = UTC if f["aware"] else zoneinfo.ZoneInfo(local)
        want = want.astimezone(zone)
    except OverflowError:
        return False
    got = fld.from_bytes(data)
    if f["aware"]:
        check(got.tzinfo is not None and got.utcoffset() == datetime.timedelta(0),
              "loaded %r: not in UTC", got)
        eq(got, want.replace(tzinfo=UTC), "loading %d units by %r", n, f)
    else:
        check(got.tzinfo is None, "loaded %r: not naive", got)
        eq(got, want.replace(tzinfo=None), "loading %d units by %r in %s", n, f, local)
    if us * u % 10**6 == 0 and us * u // 10**6 == n:
        eq_bytes(fld.to_bytes(got), data, "dumping %r again", got)
    else:
        # Only nanoseconds are finer than what a datetime can hold.
        check(f["res"] == "ns", "%d units aren't whole microseconds", n)
        lo, hi = limits(f)
        if lo <= us * 1000 <= hi:
            again = fld.from_bytes(fld.to_bytes(got))
            eq(again, got, "loading %r again", got)
    return True


def load(case):
    f = case["f"]
    with local_zone(case["local"]):
        if not loading(f, case["n"], case["local"]):
            return False
        schema = {"fields": [
            {"k": "int", "name": "p", "size": 1, "signed": False},
            {"k": "ts", "name": "t", **f},
            {"k": "int", "name": "q", "size": 1, "signed": False},
        ]}
        data = b"\x05" + ref.int_bytes(case["n"], f["size"], f["signed"], f["endian"]) + b"\6"
        inst = spec.Builder().struct(schema).from_bytes(data)
        eq(inst.t, field(f).from_bytes(data[1:-1]), "in a struct")
        check((inst.p, inst.q) == (5, 6), "neighbours loaded as %r", (inst.p, inst.q))
        if f["res"] != "ns":
            eq_bytes(inst.to_bytes(), data, "in a struct")
    return case["n"] not in (0, 1)


def sized(case):
    """A timestamp as wide as another field says."""
    f, size, n = case["f"], case["f"]["size"], case["n"]
    kw = {"resolution": f["res"], "tz_aware": f["aware"], "signed": f["signed"]}
    if f["endian"]:
        kw["endian"] = f["endian"]
    width = fields.UInt8(name="w")
    cls = type("T", (binobj.Struct,), {
        "w": width,
        "t": fields.Timestamp(size="w" if case["by_name"] else width, **kw),
        "q": fields.UInt8(),
    })
    with local_zone(case["local"]):
        us = round(ref.Fraction(n * 10**6, ref.UNITS[f["res"]]))
        try:
            t = (ref.EPOCH + datetime.timedelta(microseconds=us)).astimezone(
                UTC if f["aware"] else zoneinfo.ZoneInfo(case["local"]))
        except OverflowError:
            return False
        if not f["aware"]:
            t = t.replace(tzinfo=None)
        n = units(us, f)
        lo, hi = limits(f)
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            if lo <= n <= hi:
                data = bytes([size]) + ref.int_bytes(n, size, f["signed"], f["endian"]) + b"\6"
                inst = cls(w=size, t=t, q=6)
                eq_bytes(inst.to_bytes(), data, "%r as wide as another field says", t)
                check(len(inst) == len(data), "len() is %d instead of %d", len(inst),
                      len(data))
                back = cls.from_bytes(data)
                eq(back.t, field(f).from_bytes(data[1:-1]), "loading %r", data)
                check((back.w, back.q) == (size, 6), "neighbours of %r", back)
                eq(cls.get_field(io.BytesIO(data), "t"), back.t, "get_field()")
                with raising(errors.UnexpectedEOFError, "loading %r" % data[:size]):
                    cls.from_bytes(data[:size])
        for m in range(1, size + 1):
            lo, hi = limits({**f, "size": m})
            if not lo <= n <= hi:
                with raising(errors.SerializationError, "dumping %r to %d bytes" % (t, m)):
                    cls(w=m, t=t, q=6).to_bytes()
    return case["n"] not in (0, 1)


@st.composite
def _field(draw):
    return {
        "size": draw(st.sampled_from([4, 8, 12, 4, 8, 1, 2, 3, 5, 6, 7, 16])),
        "generic": draw(st.booleans()),
        "res": draw(st.sampled_from(["s", "ms", "us", "ns"])),
        "aware": draw(st.booleans()),
        "signed": draw(st.booleans()),
        "endian": draw(st.sampled_from(["big", "little", None])),
    }


LO = gen.MIN_S * 10**6
HI = gen.MAX_S * 10**6 + 999999


@st.composite
def _aware(draw):
    f = draw(_field())
    u = ref.UNITS[f["res"]]
    edges = []
    for x in (*limits(f), 0):
        for d in (-1, 0, 1):
            us = (x + d) * 10**6 // u
            edges += [us - 1, us, us + 1]
    edges = [x for x in edges if LO <= x <= HI]
    us = draw(st.one_of(
        st.sampled_from(sorted(set(edges))), st.integers(LO, HI),
        st.integers(-4 * 10**15, 4 * 10**15), st.integers(-3 * 10**6, 3 * 10**6),
        st.integers(-4 * 10**9, 16 * 10**9).map(lambda s: s * 10**6),
    ))
    us = min(max(us, LO), HI)
    zone = draw(st.one_of(st.sampled_from(ZONES), gen.OFFSETS))
    return {"f": f, "us": us, "zone": zone, "local": draw(st.sampled_from(ZONES))}


_CHANGES = [
    (2021, 3, 14, 2), (2021, 11, 7, 1), (2021, 3, 28, 2), (2021, 10, 31, 2),
    (2021, 4, 4, 1), (2021, 10, 3, 2), (1999, 10, 31, 1), (1970, 1, 1, 0),
    (1969, 12, 31, 23), (2038, 1, 19, 3),
]


@st.composite
def _naive(draw):
    f = draw(_field())
    if draw(st.booleans()):
        f["size"] = draw(st.sampled_from([8, 12]))
        f["signed"] = True
    if draw(st.booleans()):
        day = draw(st.sampled_from(_CHANGES))
    else:
        day = (draw(st.integers(1905, 2150)), draw(st.integers(1, 12)),
               draw(st.integers(1, 28)), draw(st.integers(0, 23)))
    wall = [*day, draw(st.integers(0, 59)), draw(st.integers(0, 59)),
            draw(st.one_of(st.sampled_from([0, 1, 999999, 500000]),
                           st.integers(0, 999999)))]
    return {"f": f, "wall": wall, "fold": draw(st.integers(0, 1)),
            "local": draw(st.sampled_from(ZONES))}


@st.composite
def _load(draw):
    f = draw(_field())
    u = ref.UNITS[f["res"]]
    lo, hi = limits(f)
    if f["aware"]:
        lo, hi = max(lo, gen.MIN_S * u), min(hi, gen.MAX_S * u)
    else:
        # Zones are only well-defined for recent times.
        lo, hi = max(lo, -2 * 10**9 * u), min(hi, 5 * 10**9 * u)
    n = draw(st.one_of(
        st.integers(lo, hi), st.sampled_from([lo, lo + 1, hi, hi - 1]),
        st.integers(-3 * u, 3 * u).map(lambda x: min(max(x, lo), hi)),
    ))
    return {"f": f, "n": n, "local": draw(st.sampled_from(ZONES))}


@st.composite
def _sized(draw):
    return {**draw(_load()), "by_name": draw(st.booleans())}


SUBS = [
    company.sub(["ts"], n=2000),
    Sub("aware", _aware(), aware, n=5000),
    Sub("sized", _sized(), sized, n=2000),
    Sub("naive", _naive(), naive, n=4000),
    Sub("load", _load(), load, n=5000),
]
