"""C01: a struct's bytes are exactly its declared fields' encodings in order."""
import io

from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, dump_stream, eq_bytes, wrap
from ..runner import Sub
from ..values import ABSENT

RULE = (
    "Cases are generated schemas (fields of every kind, null/default/const/factory/"
    "computed/discard/conditional options, references, arrays, unions, nested structs,"
    " inheritance, both declaration styles) with values and a context; the oracle is an"
    " independent encoder of the documented format. Non-trivial: the serialization has at"
    " least two bytes and the struct at least two fields."
)


def layout(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    want = sut.bytes(values)
    eq_bytes(sut.make(values).to_bytes(ctx), want, "to_bytes")
    eq_bytes(dump_stream(lambda s: sut.make(values).to_stream(s, ctx)), want, "to_stream")
    if ctx is None:
        eq_bytes(bytes(sut.make(values)), want, "bytes()")
    for how in (0, 1):
        eq_bytes(sut.make(values, how).to_bytes(context=ctx), want, "to_bytes, how=%d", how)
    if len(want) < 2 or len(ref.all_fields(sut.schema)) < 2:
        return False
    return sorted({"k:" + f["k"] for f in gen.walk(sut.schema)})


def nesting(case):
    """The same values as a nested struct, given as a dictionary or an instance."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    one = sut.bytes(values)
    outer = wrap(sut)
    cls = sut.builder.struct(outer)
    want = b"\x01\x02" + one + b"\x03"
    for inner in (sut.builder.kwargs(sut.schema, values, 0, ctx), sut.make(values)):
        got = cls(head=0x102, inner=inner, tail=3).to_bytes(ctx)
        eq_bytes(got, want, "nested, as %s", type(inner).__name__)
    cls = sut.builder.struct(wrap(sut, 2))
    items = [sut.make(values), sut.builder.kwargs(sut.schema, values, 0, ctx)]
    got = cls(head=0x102, inner=items, tail=3).to_bytes(ctx)
    eq_bytes(got, b"\x01\x02" + one + one + b"\x03", "array of nested")
    return len(one) >= 2


def assembled(case):
    """The order and the way in which values are given makes no difference."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    want = sut.bytes(values)
    kwargs = sut.builder.kwargs(sut.schema, values, sut.how, ctx)
    names = [case["order"][i] for i in range(len(case["order"]))]
    fixed = {
        f["name"] for f in ref.all_fields(sut.schema)
        if f.get("const") is not None or f.get("computed") is not None
    }
    first = {}
    later = []
    for n, way in names:
        if n not in kwargs:
            continue
        if way == 0 or n in fixed:
            first[n] = kwargs[n]
        else:
            later.append((n, way))
    inst = sut.cls(**first)
    for n, way in later:
        if way == 1:
            setattr(inst, n, kwargs[n])
        else:
            inst[n] = kwargs[n]
    eq_bytes(inst.to_bytes(ctx), want, "assembled")
    return len(later) >= 1 and len(want) >= 2


def fieldwise(case):
    """Each field by itself writes its part of the serialization."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    env = ref.effective(sut.schema, values, ctx)
    all_fields = sut.builder.kwargs(
        sut.schema, {k: v for k, v in env.items() if v is not ABSENT}, 0, ctx)
    n = 0
    for f, (name, part) in zip(ref.all_fields(sut.schema), sut.parts(values)):
        if part is None:
            continue
        field = getattr(sut.cls, name)
        arg = sut.builder.arg(f, env[name], sut.how, env, ctx)
        got = field.to_bytes(arg, context=ctx, all_fields=all_fields)
        eq_bytes(got, part, "field %s to_bytes", name)
        got = dump_stream(lambda s: field.to_stream(s, arg, ctx, all_fields))
        eq_bytes(got, part, "field %s to_stream", name)
        n += bool(part)
    return n >= 2


def iterated(case):
    """Arrays of all levels given as iterators."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    want = sut.bytes(values)
    parts = dict(sut.parts(values))
    n = 0
    for how in (4, 5):
        eq_bytes(sut.make(values, how).to_bytes(ctx), want, "to_bytes, how=%d", how)
        got = dump_stream(lambda s: sut.make(values, how).to_stream(s, ctx))
        eq_bytes(got, want, "to_stream, how=%d", how)
        last = sut.names()[-1]
        got = dump_stream(lambda s: sut.make(values, how).partial_dump(s, last, ctx))
        eq_bytes(got, want, "partial_dump, how=%d", how)
        env = ref.effective(sut.schema, values, ctx)
        known = sut.builder.kwargs(
            sut.schema, {k: v for k, v in env.items() if v is not ABSENT}, 0, ctx)
        for f in ref.all_fields(sut.schema):
            name = f["name"]
            if f["k"] == "array" and env[name] is not ABSENT and env[name]:
                arg = sut.builder.arg(f, env[name], how, env, ctx)
                got = getattr(sut.cls, name).to_bytes(arg, ctx, known)
                eq_bytes(got, parts[name], "field %s, how=%d", name, how)
                n += 1
    return n > 0 and ["ctx"] * gen.uses_ctx(sut.schema) + ["iterated"]


def _order(g, case):
    names = [f["name"] for f in ref.all_fields(case["schema"])]
    order = g.draw(st.permutations(names))
    return {"order": [(n, g.int(0, 2)) for n in order]}


SUBS = [
    Sub("layout", gen.cases(gen.opts(loose=True)), layout, n=4500),
    Sub("wide", gen.cases(gen.opts(groups=(15, 40), depth=1, eof=False)), layout, n=160),
    Sub("nesting", gen.cases(gen.opts(eof=False, depth=1)), nesting, n=1600),
    Sub("assembled", gen.cases(extra=_order), assembled, n=1600),
    Sub("fieldwise", gen.cases(gen.opts(loose=True)), fieldwise, n=1600),
    Sub("iterated", gen.cases(gen.opts(more=("array", "counted", "halt", "nested"),
                                       ctx="more")),
        iterated, n=1600),
]
