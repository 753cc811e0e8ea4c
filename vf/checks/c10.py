"""C10: variable-length integers follow their format exactly for all magnitudes."""
import io

from binobj import errors
from hypothesis import strategies as st

from .. import company, gen, ref, spec
from ..common import eq, eq_bytes, raising
from ..runner import Sub
from ..values import check

RULE = (
    "Every integer from -66000 to 66000 and every encoding of one or two bytes"
    " exhaustively (in blocks), for each format; beyond that integers of up to 400 bits"
    " biased to the boundaries of 7-bit groups, with redundant groups, cut short, with a"
    " maximum length, and negative."
    " Several different fields also write and read each other's values in turn. Oracle: the formats' definitions on lists of 7-bit"
    " groups. Non-trivial: encodings of at least two bytes."
)
FORMATS = ["vlq", "uleb128", "leb128", "compact"]


def field(fmt, **kw):
    return spec.Builder().field({"k": "vli", "fmt": fmt, **kw})


def one(fld, fmt, v):
    want = ref.vli_bytes(v, fmt)
    eq_bytes(fld.to_bytes(v), want, "to_bytes(%d)", v)
    eq(fld.from_bytes(want), v, "from_bytes(%r)", want)


def block(case):
    fmt = case["fmt"]
    fld = field(fmt)
    a = case["start"]
    for v in range(a, a + 250):
        if v < 0 and fmt in ("vlq", "uleb128"):
            with raising(errors.SerializationError, "to_bytes(%d)", v):
                fld.to_bytes(v)
        else:
            one(fld, fmt, v)
    return True


def blocks(tier):
    top = 66000 if tier == "quick" else 2200000
    for fmt in FORMATS:
        lo = -top if fmt in ("leb128", "compact") else -250
        for start in range(lo, top, 250):
            yield {"fmt": fmt, "start": start}


def short(case):
    fmt = case["fmt"]
    fld = field(fmt)
    for last in range(128):
        data = bytes([case["first"], last]) if case["first"] >= 128 else bytes([last])
        v, _ = ref.vli_value(data, 0, fmt)
        eq(fld.from_bytes(data), v, "from_bytes(%r)", data)
    return True


def shorts(tier):
    for fmt in FORMATS:
        for first in [0] + list(range(128, 256)):
            yield {"fmt": fmt, "first": first}


def values(case):
    fmt, v = case["fmt"], case["value"]
    fld = field(fmt)
    one(fld, fmt, v)
    data = ref.vli_bytes(v, fmt)
    # it stops at its last byte, in a stream
    s = io.BytesIO(case["junk"] + data + case["junk"] + b"\x80")
    s.seek(len(case["junk"]))
    eq(fld.from_stream(s), v, "from_stream")
    check(s.tell() == len(case["junk"]) + len(data), "left at %s", s.tell())
    # cut short
    for n in range(len(data)):
        with raising(errors.UnexpectedEOFError, "%d of %d bytes", n, len(data)):
            fld.from_bytes(data[:n])
    return len(data) >= 2


def encodings(case):
    """Any well-formed encoding, also one with redundant groups."""
    fmt, data = case["fmt"], case["data"]
    fld = field(fmt)
    v, _ = ref.vli_value(data, 0, fmt)
    eq(fld.from_bytes(data), v, "from_bytes(%r)", data)
    with raising(errors.ExtraneousDataError, "an extra byte"):
        fld.from_bytes(data + b"\0")
    again = fld.to_bytes(v)
    eq_bytes(again, ref.vli_bytes(v, fmt), "to_bytes of what was loaded")
    check(len(again) <= len(data), "the encoding of %d isn't the shortest", v)
    for n in range(len(data)):
        with raising(errors.UnexpectedEOFError, "%d of %d bytes", n, len(data)):
            fld.from_bytes(data[:n])
    return len(data) >= 2


def limits(case):
    fmt, v, limit = case["fmt"], case["value"], case["max"]
    fld = field(fmt, max=limit)
    data = ref.vli_bytes(v, fmt)
    s = io.BytesIO()
    if len(data) > limit:
        with raising(errors.SerializationError, "%d bytes of at most %d", len(data), limit):
            fld.to_stream(s, v)
        eq_bytes(s.getvalue(), b"", "after rejecting %d", v)
    else:
        fld.to_stream(s, v)
        eq_bytes(s.getvalue(), data, "to_stream(%d)", v)
    eq(fld.from_bytes(data) if len(data) <= limit else v, v, "from_bytes")
    if fmt in ("vlq", "uleb128") and v:
        s = io.BytesIO()
        with raising(errors.SerializationError, "to_stream(%d)", -v):
            fld.to_stream(s, -v)
        eq_bytes(s.getvalue(), b"", "after rejecting %d", -v)
    return len(data) >= 2


def longer(fmt, data):
    """Encodings of perhaps the same integer with one group more"""
    last = data[-1]
    return [b"\x80" + data, b"\xff" + data, data[:-1] + bytes([last | 128, 0]),
            data[:-1] + bytes([last | 128, 127]),
            bytes([data[0] & 64 | 128, data[0] & 191]) + data[1:]]


def constants(case):
    """Constants, in a struct: sizes, and what follows them."""
    fmt, v = case["fmt"], case["value"]
    data = ref.vli_bytes(v, fmt)
    b = spec.Builder()
    schema = {"fields": [
        {"k": "vli", "name": "a", "fmt": fmt, "const": [v]},
        {"k": "int", "name": "b", "size": 2, "signed": False, "endian": "big"},
        {"k": "vli", "name": "c", "fmt": fmt},
    ]}
    cls = b.struct(schema)
    check(cls.a.size == len(data), "size of the constant is %s instead of %s",
          cls.a.size, len(data))
    check(cls.b.offset == len(data), "offset of the next field is %s", cls.b.offset)
    inst = cls(b=0x1234, c=v)
    want = data + b"\x12\x34" + data
    eq_bytes(inst.to_bytes(), want, "to_bytes")
    check(len(inst) == len(want), "len() is %s instead of %s", len(inst), len(want))
    eq(cls.from_bytes(want).c, v, "loaded")
    # In another size than that it says it has, it's refused: the fields after it are at
    # fixed offsets.
    fld = field(fmt, size=len(data))
    eq_bytes(fld.to_bytes(v), data, "a field of that size")
    eq(fld.from_bytes(data), v, "a field of that size")
    for other in longer(fmt, data):
        if ref.vli_value(other, 0, fmt) != (v, len(other)):
            continue
        for what, load in (("constant", lambda: cls.from_bytes(other + want[len(data):])),
                           ("field of fixed size", lambda: fld.from_bytes(other))):
            with raising(errors.DeserializationError, "a %s in %d bytes instead of %d",
                         what, len(other), len(data)):
                load()
        big = field(fmt, size=len(other))
        eq(big.from_bytes(other), v, "%r, of fixed size", other)
        with raising(errors.SerializationError, "%d bytes for %d", len(data), len(other)):
            big.to_bytes(v)
        with raising(errors.DeserializationError, "%d bytes for %d", len(data), len(other)):
            big.from_bytes(data)
    return len(data) >= 2


def _wide(fmt):
    edge = st.builds(
        lambda bits, d: (1 << bits) + d, st.integers(0, 400), st.integers(-2, 2)
    ).filter(lambda x: x >= 0)
    pos = st.one_of(edge, gen.VLI_POS, st.integers(0, 1 << 400),
                    st.builds(lambda g: sum(x << (7 * i) for i, x in enumerate(g)),
                              st.lists(st.sampled_from([0, 1, 0x3F, 0x40, 0x7F]),
                                       max_size=12)))
    if fmt in ("vlq", "uleb128"):
        return pos
    return st.one_of(pos, pos.map(lambda x: -x))


@st.composite
def _values(draw):
    fmt = draw(st.sampled_from(FORMATS))
    return {"fmt": fmt, "value": draw(_wide(fmt)), "junk": draw(st.binary(max_size=3)),
            "max": draw(st.integers(1, 12))}


@st.composite
def _encodings(draw):
    fmt = draw(st.sampled_from(FORMATS))
    group = st.one_of(st.sampled_from([0, 1, 0x3F, 0x40, 0x7F]), st.integers(0, 127))
    groups = draw(st.lists(group, min_size=1, max_size=14))
    data = bytes([g | 0x80 for g in groups[:-1]] + [groups[-1]])
    return {"fmt": fmt, "data": data}


SUBS = [
    company.sub(["vli", "vli", "int"], n=2000),
    Sub("blocks", cases=blocks, prop=block),
    Sub("shorts", cases=shorts, prop=short),
    Sub("values", _values(), values, n=4000),
    Sub("encodings", _encodings(), encodings, n=4000),
    Sub("limits", _values(), limits, n=3000),
    Sub("constants", _values(), constants, n=2000),
]
