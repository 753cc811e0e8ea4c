"""C07: a partial load returns exactly the complete leading fields."""
import io

from binobj import errors
from hypothesis import strategies as st

from .. import gen, ref
from ..common import INVALID, Sut, eq, eq_bytes, kinds, raising, stop_offsets, truncations
from ..runner import Sub
from ..values import ABSENT, check, plain
from .c25 import OPTS, allowed, decode, huge, mutate

RULE = (
    "Cases are generated schemas with values and junk around them; partial loads up to"
    " every field name with arbitrary bytes following, and of every truncation (at most"
    " 40) without a name; and malformed data. Oracle: an independent decoder. Non-trivial: at least two fields"
    " and two bytes."
)


def upto(schema, data, name, ctx):
    env, pos = {}, 0
    for f in ref.all_fields(schema):
        env[f["name"]], pos = ref.dec_field(f, data, pos, env, ctx)
        if f["name"] == name:
            return


def named(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    parts = sut.parts(values)
    body = b"".join(b or b"" for _, b in parts)
    before, after = case["junk"]
    spans = stop_offsets(parts)
    stops = []
    want, _ = ref.dec_all(sut.schema, body, 0, ctx, stops)
    kept = {}
    for (name, stop), f in zip(stops, ref.all_fields(sut.schema)):
        if not f.get("discard"):
            kept[name] = want[name]
        for tail in (after, body[stop:], b""):
            if f["k"] == "array" and gen.reads_to_eof({"fields": [f]}):
                tail = b""
            stream = io.BytesIO(before + body[:stop] + tail)
            stream.seek(len(before))
            got = sut.cls.partial_load(stream, name, ctx)
            check(type(got) is sut.cls, "partial_load returned a %s", type(got))
            eq(plain(got), dict(kept), "partial_load up to %r", name)
            check(stream.tell() == len(before) + stop,
                  "partial_load up to %r left the stream at %s instead of %s", name,
                  stream.tell() - len(before), stop)
        a, b = spans[name]
        if b > a and not gen.reads_to_eof(sut.schema):
            for m in {a, b - 1, a // 2}:
                bad = kinds(lambda: upto(sut.schema, body[:m], name, ctx))
                if bad is None:
                    continue
                stream = io.BytesIO(before + body[:m])
                stream.seek(len(before))
                with raising(bad,
                             "partial_load up to %r from %d of %d bytes", name, m, b):
                    sut.cls.partial_load(stream, last_field=name, context=ctx)
    return len(kept) >= 2 and len(body) >= 2


def truncated(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    body = sut.bytes(values)
    before = case["junk"][0]
    n = 0
    for m in truncations(len(body)) + [len(body)]:
        data = body[:m]
        env, pos, kept, invalid = {}, 0, {}, False
        for f in ref.all_fields(sut.schema):
            try:
                v, end = ref.dec_field(f, data, pos, env, ctx)
            except ref.RefEOF:
                break
            except ref.RefInvalid:
                invalid = True
                break
            env[f["name"]], pos = v, end
            if not f.get("discard"):
                kept[f["name"]] = v
        stream = io.BytesIO(before + data)
        stream.seek(len(before))
        if invalid:
            with raising(INVALID, "partial_load of %d of %d bytes", m, len(body)):
                sut.cls.partial_load(stream, context=ctx)
            continue
        n += 0 < pos < len(body)
        got = sut.cls.partial_load(stream, context=ctx)
        eq(plain(got), kept, "partial_load of %d of %d bytes", m, len(body))
        check(stream.tell() == len(before) + pos,
              "partial_load of %d bytes left the stream at %s instead of %s", m,
              stream.tell() - len(before), pos)
        eq_bytes(stream.getvalue(), before + data, "the stream was changed")
    if not gen.reads_to_eof(sut.schema):
        stream = io.BytesIO(body + case["junk"][1])
        got = sut.cls.partial_load(stream, None, ctx)
        eq(plain(got), ref.dec_struct(sut.schema, body, 0, ctx)[0], "with bytes following")
        check(stream.tell() == len(body), "with bytes following, wrong position")
    return n >= 1


def corrupt(case):
    """Fields that aren't complete end it; those that are wrong are refused."""
    sut = Sut(case)
    ctx, data, schema = sut.ctx, case["data"], sut.schema
    if huge(schema, data, ctx):
        return False
    verdict, env, stops = decode(schema, data, ctx)
    ok = allowed(schema)
    fs = ref.all_fields(schema)
    s = io.BytesIO(data)
    kept = {f["name"]: env[f["name"]] for f in fs[:len(stops)] if not f.get("discard")}
    if verdict == "invalid":
        with raising(ok, "partially loading %r", data):
            sut.cls.partial_load(s, None, ctx)
    elif verdict == "ok" or not any(f["k"] == "strz" for f in gen.walk(schema)):
        eq(plain(sut.cls.partial_load(s, None, ctx)), kept, "partially loading %r", data)
        check(s.tell() == (stops[-1][1] if stops else 0), "the position is %d", s.tell())
    for i, f in enumerate(fs):
        s = io.BytesIO(data)
        if i >= len(stops):
            with raising(ok, "partially loading %r up to %s", data, f["name"]):
                sut.cls.partial_load(s, f["name"], ctx)
            continue
        lead = {f["name"] for f in fs[:i + 1]}
        eq(plain(sut.cls.partial_load(s, f["name"], ctx)),
           {k: v for k, v in kept.items() if k in lead},
           "partially loading %r up to %s", data, f["name"])
        check(s.tell() == stops[i][1], "up to %s: the position is %d", f["name"], s.tell())
    return bool(stops)


def _corrupt(g, case):
    a = ref.enc_struct(case["schema"], case["values"], case["ctx"])
    b = ref.enc_struct(case["schema"], g.values(case["schema"], case["ctx"]), case["ctx"])
    return {"data": mutate(g.draw, a, b)}


def _junk(g, case):
    return {"junk": [g.draw(st.binary(max_size=3)), g.draw(st.binary(max_size=4))]}


SUBS = [
    Sub("named", gen.cases(gen.opts(), 1, _junk), named, n=1800),
    Sub("corrupt", gen.cases(gen.opts(**OPTS), 1, _corrupt), corrupt, n=3000),
    Sub("truncated", gen.cases(gen.opts(), 1, _junk), truncated, n=1800),
]
