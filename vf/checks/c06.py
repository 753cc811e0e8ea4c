"""C06: reading one field gives the value a full load gives."""
import io

from binobj import errors
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, eq, eq_bytes, kinds, raising, stop_offsets
from ..runner import Sub
from ..values import ABSENT, check, plain
from .c25 import OPTS, allowed, decode, huge, mutate

RULE = (
    "Cases are generated schemas with values, junk before and after, and a cut; every"
    " field of the struct is read by name from the middle of the stream, whole and cut"
    " short; and so are those of data with bytes flipped, inserted, removed and so on."
    " Oracle: an independent decoder and a full load. Non-trivial: at least two"
    " fields are read from a struct of at least two bytes."
)


def reading(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    body = sut.bytes(values)
    before, after = case["junk"]
    if gen.reads_to_eof(sut.schema):
        after = b""
    data = before + body + after
    want, end = ref.dec_all(sut.schema, data, len(before), ctx)
    stream = io.BytesIO(data)
    stream.seek(len(before))
    full = plain(sut.cls.from_stream(stream, ctx))
    for f in ref.all_fields(sut.schema):
        name = f["name"]
        stream.seek(len(before))
        got = plain(sut.cls.get_field(stream, name, ctx))
        eq(got, want[name], "get_field(%r)", name)
        if name in full:
            eq(got, full[name], "get_field(%r) vs a full load", name)
        check(stream.tell() == len(before), "get_field(%r) left the stream at %s", name,
              stream.tell())
    eq_bytes(stream.getvalue(), data, "the stream was changed")
    with raising(ValueError, "get_field of an unknown name"):
        sut.cls.get_field(stream, "no_such_field", ctx)
    check(stream.tell() == len(before), "the stream was moved")
    return len(want) >= 2 and len(body) >= 2


def cut(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    parts = sut.parts(values)
    body = b"".join(b or b"" for _, b in parts)
    before = case["junk"][0]
    spans = stop_offsets(parts)
    n = 0
    env, _ = ref.dec_all(sut.schema, body, 0, ctx)
    fs = {f["name"]: f for f in ref.all_fields(sut.schema)}
    for name, (a, b) in spans.items():
        for m in {a, (a + b) // 2, b - 1}:
            if not a <= m < b:
                continue
            bad = kinds(lambda: ref.dec_field(fs[name], body[:m], a, env, ctx))
            if bad is None:
                continue
            n += 1
            stream = io.BytesIO(before + body[:m])
            stream.seek(len(before))
            with raising(bad, "get_field(%r) with %d of %d bytes",
                         name, m, b):
                sut.cls.get_field(stream, name, ctx)
            check(stream.tell() == len(before), "a failed get_field(%r) left the stream"
                  " at %s", name, stream.tell())
        # nothing after the field is needed
        stream = io.BytesIO(before + body[:b])
        stream.seek(len(before))
        eq(plain(sut.cls.get_field(stream, name, context=ctx)), env[name],
           "get_field(%r) from the bytes up to its end", name)
    return n >= 2


def corrupt(case):
    """Of any data: what loads has the values that its fields have when they're read alone."""
    sut = Sut(case)
    ctx, data, schema = sut.ctx, case["data"], sut.schema
    if huge(schema, data, ctx):
        return False
    verdict, env, stops = decode(schema, data, ctx)
    ok = allowed(schema)
    stream = io.BytesIO(b"?" + data)
    read = 0
    for f in ref.all_fields(schema):
        name = f["name"]
        stream.seek(1)
        try:
            got = plain(sut.cls.get_field(stream, name, ctx))
        except ok as e:
            check(name not in env, "get_field(%r) of %r: %r", name, data, e)
        else:
            if name in env:
                eq(got, env[name], "get_field(%r) of %r", name, data)
                read += 1
        check(stream.tell() == 1, "get_field(%r) left the stream at %s", name,
              stream.tell())
    if verdict == "ok":
        stream.seek(1)
        full = plain(sut.cls.from_stream(stream, ctx))
        eq(full, ref.kept(schema, env), "a full load of %r", data)
    eq_bytes(stream.getvalue(), b"?" + data, "the stream was changed")
    return read >= 2


def _junk(g, case):
    return {"junk": [g.draw(st.binary(max_size=4)), g.draw(st.binary(max_size=4))]}


def _corrupt(g, case):
    s, ctx = case["schema"], case["ctx"]
    a, b = (ref.enc_struct(s, v, ctx) for v in (case["values"], g.values(s, ctx)))
    return {"data": mutate(g.draw, a, b)}


SUBS = [
    Sub("reading", gen.cases(gen.opts(), 1, _junk), reading, n=2000),
    Sub("fixed", gen.cases(gen.opts(variable=False, halt=False), 1, _junk), reading,
        n=1200),
    Sub("corrupt", gen.cases(gen.opts(**OPTS), 1, _corrupt), corrupt, n=1800),
    Sub("wide", gen.cases(gen.opts(groups=(15, 40), depth=1, eof=False), 1, _junk), reading, n=120),
    Sub("cut", gen.cases(gen.opts(eof=False), 1, _junk), cut, n=1500),
]
