"""C11: floats use the IEEE-754 interchange format in the declared byte order."""
import io
import math

from binobj import errors
from hypothesis import strategies as st

from .. import company, gen, ref, spec
from ..common import eq, eq_bytes, raising
from ..runner import Sub
from ..values import check

RULE = (
    "Every binary16 bit pattern exhaustively (in blocks of 256), random and boundary"
    " patterns of binary32/64, arbitrary numbers that have to be rounded, numbers around"
    " the overflow threshold, and non-numbers, for every byte order."
    " Several different fields also write and read each other's values in turn. Oracle: IEEE-754 by"
    " exact rational arithmetic. Non-trivial: neither 0 nor an integer below 256."
)


def field(case):
    return spec.Builder().field({"k": "float", "fmt": case["fmt"],
                                 "endian": case["endian"]})


def raw(bits, case):
    return ref.int_bytes(bits, ref.FLOAT_SIZE[case["fmt"]], False, case["endian"])


def pattern(fld, case, bits):
    data = raw(bits, case)
    v = ref.float_from_bits(bits, case["fmt"])
    got = fld.from_bytes(data)
    check(type(got) is float, "loaded a %s", type(got))
    eq(got, v, "from_bytes(%r)", data)
    if v == v:
        eq_bytes(fld.to_bytes(got), data, "to_bytes(%r)", got)
    else:
        out = fld.to_bytes(got)
        check(fld.from_bytes(out) != fld.from_bytes(out), "nan dumped as %r", out)
    return v


def block(case):
    fld = field(case)
    for low in range(256):
        pattern(fld, case, case["high"] << 8 | low)
    return True


def blocks(tier):
    for endian in ("big", "little", None):
        for high in range(256):
            yield {"fmt": "e", "endian": endian, "high": high}


def patterns(case):
    v = pattern(field(case), case, case["bits"])
    return v != v or not v.is_integer() or abs(v) > 255


def numbers(case):
    """Any number: rounded to the nearest, to even if halfway, or refused."""
    fld, v = field(case), case["value"]
    try:
        bits = ref.float_bits(v, case["fmt"])
    except ref.RefInvalid:
        s = io.BytesIO()
        with raising(errors.SerializationError, "to_stream(%r)", v):
            fld.to_stream(s, v)
        eq_bytes(s.getvalue(), b"", "after rejecting %r", v)
        return True
    eq_bytes(fld.to_bytes(v), raw(bits, case), "to_bytes(%r)", v)
    b = spec.Builder()
    schema = {"fields": [
        {"k": "int", "name": "p", "size": 1, "signed": False},
        {"k": "float", "name": "v", "fmt": case["fmt"], "endian": case["endian"]},
        {"k": "int", "name": "q", "size": 1, "signed": False},
    ]}
    data = b"\x01" + raw(bits, case) + b"\x02"
    eq_bytes(b.make(schema, {"p": 1, "v": v, "q": 2}).to_bytes(), data, "in a struct")
    eq(b.struct(schema).from_bytes(data).v, ref.float_from_bits(bits, case["fmt"]),
       "in a struct")
    return isinstance(v, float) and not v.is_integer() or abs(v) > 255


def garbage(case):
    fld, v = field(case), case["value"]
    s = io.BytesIO()
    with raising(errors.SerializationError, "to_stream(%r)", v):
        fld.to_stream(s, v)
    eq_bytes(s.getvalue(), b"", "after rejecting %r", v)
    with raising(errors.SerializationError, "in a struct: %r", v):
        schema = {"fields": [{"k": "float", "name": "v", "fmt": case["fmt"],
                              "endian": case["endian"]}]}
        spec.Builder().struct(schema)(v=v).to_bytes()
    return True


_FMT = st.sampled_from(["e", "f", "d"])
_ENDIAN = st.sampled_from(["big", "little", None])


@st.composite
def _patterns(draw):
    fmt = draw(_FMT)
    e, m = ref.FLOATS[fmt]
    n = e + m + 1
    special = st.builds(
        lambda s, x, y: (s << (n - 1)) | (x << m) | y,
        st.integers(0, 1), st.sampled_from([0, 1, (1 << e) - 2, (1 << e) - 1]),
        st.sampled_from([0, 1, 2, (1 << m) - 1, 1 << (m - 1)]),
    )
    bits = draw(st.one_of(special, st.integers(0, (1 << n) - 1)))
    return {"fmt": fmt, "endian": draw(_ENDIAN), "bits": bits}


@st.composite
def _numbers(draw):
    fmt = draw(_FMT)
    e, m = ref.FLOATS[fmt]
    n = e + m + 1
    top = ref.float_from_bits((((1 << e) - 1) << m) - 1, fmt)
    near = st.builds(
        # around the middle between two neighbouring numbers of the format
        lambda bits, k, up: _between(bits, k, up, fmt),
        st.integers(0, (((1 << e) - 1) << m) - 2),
        st.integers(-1, 1), st.booleans(),
    )
    edge = st.sampled_from([0.0, -0.0, top, -top, math.inf, -math.inf,
                            ref.float_from_bits(1, fmt), ref.float_from_bits(1, fmt) / 2])
    over = st.builds(lambda x, k: _nudge(top * x if fmt != "d" else top, k),
                     st.sampled_from([1.0, 1 + 2.0 ** -(m + 1), 1 + 2.0 ** -m, 2.0]),
                     st.integers(-3, 3)).filter(lambda x: x == x)
    wide = st.floats(allow_nan=False)
    whole = st.one_of(st.integers(-70000, 70000), st.integers(-(1 << 53), 1 << 53))
    if fmt == "d":
        whole = st.one_of(whole, st.integers(-(1 << 1023), 1 << 1023),
                          st.sampled_from([1 << 1024, -(1 << 1030)]))
    v = draw(st.one_of(near, edge, over, wide, whole))
    return {"fmt": fmt, "endian": draw(_ENDIAN), "value": v}


def _nudge(x, k):
    for _ in range(abs(k)):
        x = math.nextafter(x, math.inf if k > 0 else -math.inf)
    return x


def _between(bits, k, up, fmt):
    if fmt == "d":
        return ref.float_from_bits(bits, fmt)
    a = ref.float_from_bits(bits, fmt)
    b = ref.float_from_bits(bits + 1, fmt)
    x = _nudge(a + (b - a) / 2, k)
    return x if up else -x


_garbage = st.builds(
    lambda fmt, endian, v: {"fmt": fmt, "endian": endian, "value": v},
    _FMT, _ENDIAN,
    st.one_of(st.text(max_size=4), st.binary(max_size=4), st.lists(st.floats(), max_size=2),
              st.dictionaries(st.text(max_size=2), st.integers(), max_size=1)),
)

SUBS = [
    company.sub(["float"], n=2000),
    Sub("blocks", cases=blocks, prop=block),
    Sub("patterns", _patterns(), patterns, n=6000),
    Sub("numbers", _numbers(), numbers, n=6000),
    Sub("garbage", _garbage, garbage, n=1000),
]
