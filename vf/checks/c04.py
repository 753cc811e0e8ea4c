"""C04: truncated input and leftover input are never silently accepted."""
import io

from binobj import errors
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, eq, kinds, raising, truncations
from ..runner import Sub
from ..values import ABSENT, check, plain
from .c25 import OPTS, allowed, decode, huge, mutate

RULE = (
    "Cases are generated schemas with values and trailing junk; every strict prefix of the"
    " serialization (at most 40 of long ones) and the serialization plus junk are loaded; also malformed data that is short or long."
    " Non-trivial: at least two prefixes."
)


def truncated(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    data = sut.bytes(values)
    for n in truncations(len(data)):
        bad = kinds(lambda: ref.dec_struct(sut.schema, data[:n], 0, ctx))
        if bad is None:
            continue
        for exact in (True, False):
            with raising(bad, "%d of %d bytes", n, len(data)):
                sut.cls.from_bytes(data[:n], ctx, exact=exact)
        with raising(bad, "%d of %d bytes", n, len(data)):
            sut.cls.from_stream(io.BytesIO(case["junk"] + data[:n]), ctx) if not case[
                "junk"] else _at(sut, case["junk"] + data[:n], len(case["junk"]), ctx)
    return len(data) >= 2


def _at(sut, data, pos, ctx):
    s = io.BytesIO(data)
    s.seek(pos)
    return sut.cls.from_stream(s, ctx)


def leftover(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    data = sut.bytes(values)
    want, _ = ref.dec_struct(sut.schema, data, 0, ctx)
    for extra in {case["junk"] or b"\0", b"\0", data or b"\1", b"\xff" * 300}:
        with raising(errors.ExtraneousDataError, "%d extra bytes", len(extra)):
            sut.cls.from_bytes(data + extra, ctx)
        with raising(errors.ExtraneousDataError, "%d extra bytes", len(extra)):
            sut.cls.from_bytes(bytearray(data + extra), context=ctx, exact=True)
        got = sut.cls.from_bytes(data + extra, ctx, exact=False)
        eq(plain(got), want, "exact=False with %d extra bytes", len(extra))
    eq(plain(sut.cls.from_bytes(data, ctx, exact=False)), want, "exact=False")
    return len(data) >= 1


def fieldwise(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    data = sut.bytes(values)
    env = {}
    pos = 0
    n = 0
    for f in ref.all_fields(sut.schema):
        field = getattr(sut.cls, f["name"])
        want, end = ref.dec_field(f, data, pos, env, ctx)
        part = data[pos:end]
        if not f.get("present"):
            loaded = {k: sut.builder.arg({"k": "?"}, v) for k, v in env.items()}
            for m in truncations(len(part), 12):
                n += 1
                bad = kinds(lambda: ref.dec_field(f, part[:m], 0, env, ctx))
                if bad is None:
                    continue
                for exact in (True, False):
                    with raising(bad, "%s: %d of %d bytes",
                                 f["name"], m, len(part)):
                        field.from_bytes(part[:m], ctx, exact, loaded)
            with raising(errors.ExtraneousDataError, "%s: extra bytes", f["name"]):
                field.from_bytes(part + (case["junk"] or b"\0"), ctx, True, loaded)
            eq(plain(field.from_bytes(part + case["junk"], ctx, False, loaded)), want,
               "%s: exact=False", f["name"])
            eq(plain(field.from_bytes(part, ctx, loaded_fields=loaded)), want,
               "%s: exact", f["name"])
        env[f["name"]] = want
        pos = end
    return n >= 2


def to_eof(case):
    """A declaration that reads to the end of the data only accepts whole elements."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    data = sut.bytes(values)
    n = 0
    for m in truncations(len(data)):
        bad = kinds(lambda: ref.dec_struct(sut.schema, data[:m], 0, ctx))
        if bad is not None:
            with raising(bad, "%d of %d bytes", m, len(data)):
                sut.cls.from_bytes(data[:m], ctx)
        else:
            n += 1
            want, _ = ref.dec_struct(sut.schema, data[:m], 0, ctx)
            eq(plain(sut.cls.from_bytes(data[:m], ctx)), want, "%d bytes", m)
    return n >= 1


def corrupt(case):
    """Malformed data is no excuse: what's missing or left over is still noticed."""
    sut = Sut(case)
    ctx, data, schema = sut.ctx, case["data"], sut.schema
    if huge(schema, data, ctx):
        return False
    verdict, env, stops = decode(schema, data, ctx)
    end = stops[-1][1] if stops else 0
    if verdict == "ok":
        want = ref.kept(schema, env)
        eq(plain(sut.cls.from_bytes(data, ctx, exact=False)), want, "exact=False")
        if end < len(data):
            with raising(errors.ExtraneousDataError, "%d of %d bytes", end, len(data)):
                sut.cls.from_bytes(data, ctx)
        else:
            eq(plain(sut.cls.from_bytes(data, ctx)), want, "loading")
    else:
        bad = allowed(schema)
        if verdict == "eof" and not any(f["k"] == "strz" for f in gen.walk(schema)):
            bad = (errors.UnexpectedEOFError,)
        for exact in (True, False):
            with raising(bad, "loading %r (%s)", data, verdict):
                sut.cls.from_bytes(data, ctx, exact=exact)
    if len(stops) < len(sut.names()):
        f = ref.all_fields(schema)[len(stops)]
        if not f.get("present"):
            field = getattr(sut.cls, f["name"])
            loaded = {k: sut.builder.arg({"k": "?"}, v) for k, v in env.items()}
            with raising(allowed(schema), "loading %s of %r alone", f["name"], data[end:]):
                field.from_bytes(data[end:], ctx, case["exact"], loaded)
    return verdict != "ok" or end < len(data)


def _corrupt(g, case):
    a = ref.enc_struct(case["schema"], case["values"], case["ctx"])
    b = ref.enc_struct(case["schema"], g.values(case["schema"], case["ctx"]), case["ctx"])
    return {"data": mutate(g.draw, a, b), "exact": g.chance(3)}


def _junk(g, case):
    return {"junk": g.draw(st.binary(max_size=3))}


@st.composite
def _eof_cases(draw):
    g = gen.Gen(draw, gen.opts(eof=False, groups=(1, 2), inherit=False))
    s = g.schema()
    comp = g.pick([
        g.scalar(["int"]), g.scalar(["vli"]), g.scalar(["strz"]),
        {"k": "nested", "struct": {"fields": [
            {"k": "int", "name": "m", "size": 1, "signed": False},
            {"k": "bytes", "name": "n", "size": ["ref", "m", "n"]}]}},
        {"k": "array", "comp": g.scalar(["int"]), "count": g.int(1, 2)},
    ])
    s["fields"].append({"k": "array", "name": "rest", "comp": comp})
    ctx = g.context({"c0": g.chance(4), "c1": g.chance(4), "u0": g.int(0, 1)})
    return {"schema": s, "ctx": ctx, "values": g.values(s, ctx)}


NO_EOF = gen.opts(eof=False)
SUBS = [
    Sub("truncated", gen.cases(NO_EOF, 1, _junk), truncated, n=2000),
    Sub("leftover", gen.cases(NO_EOF, 1, _junk), leftover, n=1200),
    Sub("fieldwise", gen.cases(NO_EOF, 1, _junk), fieldwise, n=1000),
    Sub("corrupt", gen.cases(gen.opts(**OPTS), 1, _corrupt), corrupt, n=3000),
    Sub("to-eof", _eof_cases(), to_eof, n=800),
]
