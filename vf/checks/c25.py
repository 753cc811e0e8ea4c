"""C25: any byte string loads to a stable value or is refused cleanly."""
import io

import binobj
from binobj import errors
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain, same

RULE = (
    "Generated schemas with random bytes, constant fills, and serializations that are cut,"
    " extended, spliced, or have bytes flipped, inserted, removed, repeated or swapped."
    " Oracle: an independent decoder for acceptance, values and bytes consumed, for whole"
    " loads, partial loads and single fields; the kinds of errors the property allows; and"
    " that what's loaded and dumps loads and dumps the same again. Non-trivial: at least"
    " one field was read."
)

# What loading malformed data may raise: the library's own errors, and those of the
# standard library for text, UUIDs and dates.
REFUSED = (errors.DeserializationError, errors.ValidationError, UnicodeError)
STDLIB = (ValueError, OverflowError, OSError)
CODECS = ["iso-8859-1", "utf-8", "utf-16-le", "utf-16-be", "ascii", "utf-32-be", "cp037"]


def allowed(schema):
    out = REFUSED
    ks = {(f["k"], f.get("stored")) for f in gen.walk(schema)}
    if any(k in ("ts", "uuid") for k, _ in ks):
        out += STDLIB
    if any(k == "union" for k, _ in ks):
        out += (IndexError,)   # of these deciders
    return out


class TooLong(Exception):
    pass


def decode(schema, data, ctx):
    """("ok", values, end) or ("eof"/"invalid",) and the fields before the failure."""
    stops, env, pos = [], {}, 0
    for f in ref.all_fields(schema):
        try:
            env[f["name"]], pos = ref.dec_field(f, data, pos, env, ctx)
        except ref.RefEOF:
            return "eof", env, stops
        except ref.RefInvalid:
            return "invalid", env, stops
        stops.append((f["name"], pos))
    return "ok", env, stops


def huge(schema, data, ctx):
    """Would it have to go through a very long array of nothing?"""
    env, pos = {}, 0
    try:
        for f in ref.all_fields(schema):
            env[f["name"]], pos = ref.dec_field(f, data, pos, env, ctx)
    except ref.RefTooLong:
        return True
    except ref.RefError:
        pass
    return False


def any_bytes(case):
    sut = Sut(case)
    ctx, cls, data, schema = sut.ctx, sut.cls, case["data"], sut.schema
    if huge(schema, data, ctx):
        return False
    verdict, env, stops = decode(schema, data, ctx)
    ok = allowed(schema)
    names = sut.names()
    if verdict != "ok":
        kinds = ok
        if verdict == "eof" and not any(f["k"] == "strz" for f in gen.walk(schema)):
            kinds = (errors.UnexpectedEOFError,)
        for _ in range(2):
            with raising(kinds, "loading %r (%s)", data, verdict):
                cls.from_bytes(data, ctx)
        with raising(kinds, "loading %r (%s)", data, verdict):
            cls.from_bytes(data, ctx, exact=False)
        with raising(kinds, "loading %r from a stream (%s)", data, verdict):
            cls.from_stream(io.BytesIO(data), ctx)
    else:
        end = stops[-1][1] if stops else 0
        want = ref.kept(schema, env)
        s = io.BytesIO(data)
        got = cls.from_stream(s, ctx)
        eq(plain(got), want, "loading %r", data)
        check(s.tell() == end, "%d bytes of %r were consumed, not %d", s.tell(), data, end)
        if end < len(data):
            with raising(errors.ExtraneousDataError, "%d bytes left", len(data) - end):
                cls.from_bytes(data, ctx)
        eq(plain(cls.from_bytes(data[:end], ctx)), ref.kept(
            schema, decode(schema, data[:end], ctx)[1]), "loading exactly that much")
        eq(plain(cls.from_bytes(data, ctx, exact=False)), want, "loading it again")
        stable(sut, cls, got, want, ctx)
    # Partial loads and single fields
    s = io.BytesIO(data)
    if verdict == "ok" or verdict == "eof" and kinds == (errors.UnexpectedEOFError,):
        part = cls.partial_load(s, None, ctx)
        known = {n for n, _ in stops}
        eq(plain(part), {f["name"]: env[f["name"]] for f in ref.all_fields(schema)
                         if f["name"] in known and not f.get("discard")},
           "partially loading %r", data)
        check(s.tell() == (stops[-1][1] if stops else 0), "the position is %d", s.tell())
    n = case["pick"] % len(names)
    for i in {n, len(stops) - 1, len(stops)}:
        if not 0 <= i < len(names):
            continue
        s = io.BytesIO(b"??" + data)
        s.seek(2)
        try:
            got = cls.get_field(s, names[i], ctx)
        except ok as e:
            check(i >= len(stops), "reading %s of %r: %r", names[i], data, e)
        else:
            if i < len(stops):
                eq(plain(got), env[names[i]], "reading %s of %r", names[i], data)
        check(s.tell() == 2, "the stream isn't at its original position")
    return bool(stops)


def stable(sut, cls, got, want, ctx):
    """What's loaded, when it can be dumped, loads and dumps the same."""
    try:
        again = got.to_bytes(ctx)
    except (errors.SerializationError, errors.ValidationError, UnicodeError, OverflowError,
            KeyError):
        return
    schema = sut.schema
    if huge(schema, again, ctx):
        return
    verdict, env, stops = decode(schema, again, ctx)
    lost = any(f.get("discard") for f in gen.walk(schema))
    if lost and any(f.get("present") for f in gen.walk(schema)):
        return    # They may be what others' presence depends on.
    check(verdict == "ok" and (stops[-1][1] if stops else 0) == len(again),
          "it was dumped to %r, which isn't valid", again)
    back = cls.from_bytes(again, ctx)
    kept = ref.kept(schema, env)
    eq(plain(back), kept, "loading what was dumped, %r", again)
    # A field with a null value has several encodings of some values, one of which is null.
    if not any(f.get("null") is not None for f in gen.walk(schema)):
        # Discarded values are lost, and others may depend on them.
        if not lost:
            eq(kept, want, "what was dumped, %r, has other values", again)
        eq_bytes(back.to_bytes(ctx), again, "dumping it again")


MUTATIONS = ["flip", "cut", "insert", "remove", "repeat", "splice", "fill", "swap", "set",
             "extend", "longer"]


def mutate(draw, data, other):
    data = bytearray(data)
    for _ in range(draw(st.integers(0, 3))):
        how = draw(st.sampled_from(MUTATIONS))
        n = len(data)
        i = draw(st.integers(0, max(n - 1, 0)))
        j = draw(st.integers(0, max(n, 1)))
        if how == "flip" and n:
            data[i] ^= 1 << draw(st.integers(0, 7))
        elif how == "cut":
            del data[i:]
        elif how == "insert":
            data[i:i] = draw(st.binary(min_size=1, max_size=4))
        elif how == "remove":
            del data[i:i + 1 + j % 4]
        elif how == "repeat":
            data[i:i] = data[i:j]
        elif how == "splice":
            data[i:] = other[i:]
        elif how == "fill":
            data[i:j] = bytes([draw(st.sampled_from([0, 255, 127, 128, 32]))]) * max(j - i, 0)
        elif how == "swap" and n:
            k = j % n
            data[i], data[k] = data[k], data[i]
        elif how == "set" and n:
            data[i] = draw(st.sampled_from([0, 1, 2, 3, 127, 128, 129, 254, 255]))
        elif how == "extend":
            data += draw(st.binary(min_size=1, max_size=5))
        elif how == "longer" and n:
            # Another encoding of the same integer, if it's of variable length
            data[i:i + 1] = bytes([128, data[i]] if j % 2 else [data[i] | 128, 0])
    return bytes(data)


def _extra(g, c):
    s, ctx = c["schema"], c["ctx"]
    how = g.int(0, 7)
    if how == 0:
        data = g.draw(st.binary(max_size=60))
    elif how == 1:
        data = bytes([g.pick([0, 255, 1, 128, 2, 48])]) * g.int(0, 80)
    elif how == 2:
        data = g.draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, 64, 65, 127, 128, 255]),
                               max_size=60).map(bytes))
    else:
        a = ref.enc_struct(s, c["values"], ctx)
        b = ref.enc_struct(s, g.values(s, ctx), ctx)
        data = mutate(g.draw, a, b)
    return {"data": data, "pick": g.int(0, 20)}


# No terminators in the middle of nothing: codecs with byte order marks need them.
OPTS = dict(bom=False, codecs=CODECS)

SUBS = [
    Sub("any", gen.cases(gen.opts(loose=True, **OPTS), extra=_extra), any_bytes, n=5000),
    Sub("plain", gen.cases(gen.opts(null=False, discard=False, const=False, **OPTS),
                           extra=_extra), any_bytes, n=3000),
]
