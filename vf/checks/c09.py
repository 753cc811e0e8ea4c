"""C09: fixed-width integers are exact two's complement in the declared byte order."""
import io

from binobj import errors
from hypothesis import strategies as st

from .. import company, gen, ref, spec
from ..common import eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check

RULE = (
    "All 8- and 16-bit values and byte strings exhaustively (in blocks of 256), for every"
    " signedness, byte order and class; for widths up to 40 bytes boundary-biased random"
    " values, byte strings, values outside the range and things that are not integers."
    " Several different fields also write and read each other's values in turn. Oracle: arithmetic on the"
    " individual bytes. Non-trivial: the value isn't 0."
)


def field(case, **kw):
    f = {"k": "int", **case["field"], **kw}
    return spec.Builder().field(f), f


def one(fld, f, v):
    want = ref.int_bytes(v, f["size"], f["signed"], f.get("endian"))
    eq_bytes(fld.to_bytes(v), want, "to_bytes(%d)", v)
    eq(fld.from_bytes(want), v, "from_bytes(%r)", want)


def block(case):
    fld, f = field(case)
    for low in range(256):
        b = bytes([low]) if f["size"] == 1 else bytes([case["high"], low])
        v = ref.int_value(b, f["signed"], f.get("endian"))
        eq(fld.from_bytes(b), v, "from_bytes(%r)", b)
        eq_bytes(fld.to_bytes(v), b, "to_bytes(%d)", v)
    return True


def blocks(tier):
    for signed in (False, True):
        for endian in ("big", "little", None):
            for generic in (False, True):
                f = {"size": 1, "signed": signed, "endian": endian, "generic": generic}
                yield {"field": f}
                for high in range(256):
                    f = dict(f, size=2)
                    yield {"field": f, "high": high}


def values(case):
    fld, f = field(case)
    v = case["value"]
    one(fld, f, v)
    # in a stream
    s = io.BytesIO(b"\x55")
    s.seek(1)
    fld.to_stream(s, v)
    want = b"\x55" + ref.int_bytes(v, f["size"], f["signed"], f.get("endian"))
    eq_bytes(s.getvalue(), want, "to_stream")
    s.seek(1)
    eq(fld.from_stream(s), v, "from_stream")
    # in a struct, with a neighbour on each side
    b = spec.Builder()
    schema = {"fields": [
        {"k": "int", "name": "p", "size": 1, "signed": False},
        {**f, "name": "v"},
        {"k": "int", "name": "q", "size": 1, "signed": False},
    ]}
    inst = b.make(schema, {"p": 1, "v": v, "q": 2})
    eq_bytes(inst.to_bytes(), b"\x01" + want[1:] + b"\x02", "in a struct")
    eq(b.struct(schema).from_bytes(b"\x01" + want[1:] + b"\x02").v, v, "in a struct")
    return v != 0


def patterns(case):
    fld, f = field(case)
    data = case["data"]
    v = ref.int_value(data, f["signed"], f.get("endian"))
    got = fld.from_bytes(data)
    eq(got, v, "from_bytes(%r)", data)
    eq_bytes(fld.to_bytes(got), data, "to_bytes of what was loaded")
    return v != 0


def outside(case):
    fld, f = field(case)
    v = case["value"]
    s = io.BytesIO()
    with raising(errors.SerializationError, "to_stream(%d)", v):
        fld.to_stream(s, v)
    eq_bytes(s.getvalue(), b"", "after rejecting %d", v)
    with raising(errors.SerializationError, "to_bytes(%d)", v):
        fld.to_bytes(v)
    schema = {"fields": [{**f, "name": "v"}]}
    inst = spec.Builder().make(schema, {"v": v})
    with raising(errors.SerializationError, "to_bytes(%d) of a struct", v):
        inst.to_bytes()
    return True


def garbage(case):
    """What isn't a whole number isn't made one."""
    fld, f = field(case)
    v = case["value"]
    s = io.BytesIO()
    inst = spec.Builder().struct({"fields": [{**f, "name": "v"}]})(v=v)
    for what, dump in (("to_stream", lambda: fld.to_stream(s, v)),
                       ("to_bytes", lambda: fld.to_bytes(v)),
                       ("to_bytes of a struct", inst.to_bytes),
                       ("to_stream of a struct", lambda: inst.to_stream(s))):
        try:
            out = dump()
        except Exception:
            pass
        else:
            check(False, "%s(%r) gave %r", what, v, out)
        eq_bytes(s.getvalue(), b"", "after rejecting %r", v)
    return True


@st.composite
def _field(draw):
    size = draw(st.one_of(
        st.sampled_from([1, 2, 4, 8]), st.integers(1, 17), st.integers(1, 40)))
    return {
        "size": size, "signed": draw(st.booleans()),
        "endian": draw(st.sampled_from(["big", "little", None])),
        "generic": draw(st.booleans()),
    }


@st.composite
def _values(draw):
    f = draw(_field())
    return {"field": f, "value": draw(gen.ints(f["size"], f["signed"]))}


@st.composite
def _patterns(draw):
    f = draw(_field())
    n = f["size"]
    return {"field": f, "data": draw(st.binary(min_size=n, max_size=n))}


@st.composite
def _outside(draw):
    f = draw(_field())
    bits = 8 * f["size"]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if f["signed"] else (
        0, (1 << bits) - 1)
    d = draw(st.one_of(st.integers(1, 3), st.integers(1, 1 << bits),
                       st.just(1 << bits), st.just(hi - lo)))
    return {"field": f, "value": hi + d if draw(st.booleans()) else lo - d}


_garbage = st.builds(
    lambda f, v: {"field": f, "value": v}, _field(),
    st.one_of(st.floats(), st.integers(-9, 200).map(float), st.text(max_size=3),
              st.sampled_from(["0", "7", b"1", b"\0", [], [1], 1j, {}, (1,)]),
              st.fractions(), st.decimals(allow_nan=False, allow_infinity=False)))

SUBS = [
    company.sub(["int"], n=2500),
    Sub("garbage", _garbage, garbage, n=600),
    Sub("blocks", cases=blocks, prop=block),
    Sub("values", _values(), values, n=5000),
    Sub("patterns", _patterns(), patterns, n=4000),
    Sub("outside", _outside(), outside, n=4000),
]
