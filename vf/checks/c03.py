"""C03: loading and dumping touch exactly the struct's own bytes of a stream."""
import io
import tempfile

from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, eq, eq_bytes
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Cases are generated schemas with several values each, a context, junk before,"
    " between and after the records, and a kind of stream. Oracle: an independent encoder"
    " for the bytes and positions. Non-trivial: a struct of at least one byte that is not"
    " at position 0 or is not at the end of the stream."
)


def readable(kind, data):
    if kind == 1:
        return io.BufferedReader(io.BytesIO(data))
    if kind == 2:
        f = tempfile.TemporaryFile()
        f.write(data)
        f.flush()
        return f
    if kind == 3:
        return io.BufferedRandom(io.BytesIO(data))
    return io.BytesIO(data)


def loading(case):
    sut = Sut(case)
    ctx = sut.ctx
    chunks = []
    spans = []
    pos = 0
    for junk, values in zip(case["junk"], case["values"]):
        data = sut.bytes(values)
        chunks += [junk, data]
        spans.append((pos + len(junk), pos + len(junk) + len(data)))
        pos += len(junk) + len(data)
    whole = b"".join(chunks) + case["junk"][-1]
    stream = readable(case["stream"], whole)
    with stream:
        for i in case["order"]:
            a, b = spans[i]
            stream.seek(a)
            got = sut.cls.from_stream(stream, ctx)
            check(stream.tell() == b, "record at %s: left at %s instead of %s",
                  a, stream.tell(), b)
            alone = sut.cls.from_bytes(whole[a:b], ctx)
            eq(plain(got), plain(alone), "record at %s, from_stream vs from_bytes", a)
            want, end = ref.dec_struct(sut.schema, whole, a, ctx)
            eq(plain(got), want, "record at %s", a)
        # one after another, without seeking
        if all(not j for j in case["junk"][1:-1]):
            stream.seek(spans[0][0])
            for a, b in spans:
                check(stream.tell() == a, "record expected at %s", a)
                eq(plain(sut.cls.from_stream(stream, context=ctx)),
                   ref.dec_struct(sut.schema, whole, a, ctx)[0], "record at %s", a)
        stream.seek(0)
        eq_bytes(stream.read(), whole, "the stream was changed")
    return any(b > a and (a > 0 or b < len(whole)) for a, b in spans)


def buffers(case):
    """from_bytes takes any bytes-like object."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    data = sut.bytes(values)
    want, _ = ref.dec_struct(sut.schema, data, 0, ctx)
    eq(plain(sut.cls.from_bytes(data, ctx)), want, "bytes")
    buf = bytearray(data)
    eq(plain(sut.cls.from_bytes(buf, ctx)), want, "bytearray")
    eq_bytes(buf, data, "the bytearray was changed")
    big = b"\xaa" + data + b"\xbb\xcc"
    eq(plain(sut.cls.from_bytes(memoryview(big)[1:-2], ctx)), want, "memoryview")
    eq(plain(sut.cls.from_bytes(memoryview(data), context=ctx)), want, "memoryview")
    return len(data) >= 1


def dumping(case):
    sut = Sut(case)
    ctx = sut.ctx
    old = case["junk"][0] + bytes(range(200, 256)) + case["junk"][-1]
    for kind in (0, case["stream"] if case["stream"] != 1 else 3):
        stream = readable(kind, old)
        with stream:
            start = min(case["at"], len(old))
            stream.seek(start)
            want = bytearray(old)
            pos = start
            for values in case["values"]:
                data = sut.bytes(values)
                sut.make(values).to_stream(stream, ctx)
                want[pos:pos + len(data)] = data
                pos += len(data)
                check(stream.tell() == pos, "left at %s instead of %s",
                      stream.tell(), pos)
            # and back
            stream.seek(0)
            eq_bytes(stream.read(), want, "the stream after dumping at %s", start)
            stream.seek(start)
            for values in case["values"]:
                here = stream.tell()
                got = sut.cls.from_stream(stream, ctx)
                w, end = ref.dec_struct(sut.schema, bytes(want), here, ctx)
                eq(plain(got), w, "loaded back")
                check(stream.tell() == end, "loaded back, wrong position")
    return pos > start


def fieldwise(case):
    """Fields by themselves, too."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    data = case["junk"][0] + sut.bytes(values) + case["junk"][-1]
    stream = io.BytesIO(data)
    pos = len(case["junk"][0])
    env = {}
    n = 0
    for f in ref.all_fields(sut.schema):
        field = getattr(sut.cls, f["name"])
        want, end = ref.dec_field(f, data, pos, env, ctx)
        stream.seek(pos)
        loaded = {k: sut.builder.arg({"k": "?"}, v) for k, v in env.items()}
        got = field.from_stream(stream, ctx, loaded)
        eq(plain(got), want, "field %s", f["name"])
        check(stream.tell() == end, "field %s: left at %s instead of %s",
              f["name"], stream.tell(), end)
        if end > pos and not f.get("present"):
            got = field.from_bytes(data[pos:end], ctx, loaded_fields=loaded)
            eq(plain(got), want, "field %s, from_bytes", f["name"])
            n += 1
        env[f["name"]] = want
        pos = end
    return n > 0


def _extra(n):
    def extra(g, case):
        empty = g.chance(4)
        junk = [
            b"" if empty and 0 < i < n else g.draw(st.binary(max_size=4))
            for i in range(n + 1)
        ]
        return {
            "junk": junk, "stream": g.int(0, 3), "at": g.int(0, 70),
            "order": g.draw(st.permutations(range(n))),
        }
    return extra


NO_EOF = gen.opts(eof=False)
SUBS = [
    Sub("loading", gen.cases(NO_EOF, 3, _extra(3)), loading, n=1600),
    Sub("buffers", gen.cases(), buffers, n=1200),
    Sub("dumping", gen.cases(NO_EOF, 3, _extra(3)), dumping, n=1400),
    Sub("fieldwise", gen.cases(NO_EOF, 1, _extra(1)), fieldwise, n=1400),
]
