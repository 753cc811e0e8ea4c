"""C08: a partial dump is a prefix of the full dump."""
import io

from binobj import errors
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Lazy, Sut, dump_stream, eq, eq_bytes, raising, stop_offsets
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Cases are generated schemas with values, and a set of fields whose values are taken"
    " away; partial dumps up to every field name and without one. Oracle: an independent"
    " encoder of the leading fields. Non-trivial: a serialization of at least two bytes"
    " from two fields (complete), or one that stops before the end (incomplete)."
)


def complete(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    parts = sut.parts(values)
    want = b"".join(b or b"" for _, b in parts)
    inst = sut.make(values)
    before = plain(inst)
    for name, (a, b) in stop_offsets(parts).items():
        got = dump_stream(lambda s: inst.partial_dump(s, name, ctx))
        eq_bytes(got, want[:b], "partial_dump up to %r", name)
    eq_bytes(dump_stream(lambda s: inst.partial_dump(s, context=ctx)), want,
             "partial_dump of a complete struct")
    s = io.BytesIO(b"\xee" * (len(want) + 4))
    s.seek(2)
    inst.partial_dump(s, None, ctx)
    check(s.tell() == 2 + len(want), "the stream is at %s", s.tell())
    eq_bytes(s.getvalue(), b"\xee\xee" + want + b"\xee\xee", "partial_dump into a stream")
    eq(plain(inst), before, "the struct after partial dumps")
    return len(want) >= 2 and len(parts) >= 2


def incomplete(case):
    sut = Sut(case)
    ctx = sut.ctx
    values = {k: v for k, v in case["values"].items() if k not in case["drop"]}
    env = Lazy(sut.schema, values, ctx)
    want = b""
    failed = None
    stops = {}
    for f in ref.all_fields(sut.schema):
        try:
            v = env[f["name"]]
            if v is not ABSENT:
                want += ref.enc_value(f, v, env, ctx)
        except ref.RefMissing:
            failed = f["name"]
            break
        stops[f["name"]] = len(want)
    inst = sut.make(values)
    got = dump_stream(lambda s: inst.partial_dump(s, context=ctx))
    eq_bytes(got, want, "partial_dump of an incomplete struct (first missing: %s)", failed)
    for name in sut.names():
        if name in stops:
            got = dump_stream(lambda s: inst.partial_dump(s, name, ctx))
            eq_bytes(got, want[:stops[name]], "partial_dump up to %r", name)
        else:
            s = io.BytesIO()
            with raising(errors.MissingRequiredValueError, "partial_dump up to %r", name):
                inst.partial_dump(s, name, ctx)
            check(want.startswith(s.getvalue()), "other bytes were written")
    eq(plain(inst), plain(sut.make(values)), "the struct after partial dumps")
    return failed is not None


def _drop(g, case):
    fs = ref.all_fields(case["schema"])
    names = [f["name"] for f in fs]
    n = g.int(1, 2)
    return {"drop": [g.pick(names) for _ in range(n)]}


SUBS = [
    Sub("complete", gen.cases(gen.opts(loose=True)), complete, n=2500),
    Sub("incomplete", gen.cases(gen.opts(loose=True), extra=_drop), incomplete, n=3000),
]
