"""C19: unions and nested structs delegate exactly to the chosen declaration."""
import collections
import io
import types

import binobj
from binobj import errors, fields
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import Sut, dump_stream, eq, eq_bytes, kinds, raising
from ..runner import Sub
from ..values import check, plain

RULE = (
    "Unions of two to four generated fields and structs, chosen by another field, by the"
    " context or by the data, given dictionaries, other mappings and instances; nested"
    " structs up to five levels deep; deciders returning every kind of wrong object."
    " Oracle: the chosen field or struct class used alone, an independent encoder and"
    " decoder, and the recorded arguments of deciders. Non-trivial: at least two bytes"
    " written by the chosen declaration."
)


class Log(spec.Log):
    def add(self, what, *args):
        if what == "load":
            args = (*args[:3], dict(args[3]), args[0].tell())
        elif what == "dump":
            args = (*args[:3], {k: args[3][k] for k in args[3]})
        self.calls.append((what, *args))


def wrapped(case, log):
    """struct {i, n, v: union, q}; returns its schema, values, context and builder."""
    u = {"k": "union", "name": "v", "choices": case["choices"],
         "by": ["field", "i"] if case["by"] == "field" else ["ctx", "u0"]}
    s = {"fields": [{"k": "int", "name": "i", "size": 1, "signed": False},
                    {"k": "int", "name": "n", "size": 1, "signed": False}, u,
                    {"k": "bytes", "name": "q", "size": 2}]}
    ctx = type(case["ctx"])(case["ctx"])
    if case["by"] == "ctx":
        ctx["u0"] = case["i"]
    return s, ctx, spec.Builder(log)


def union(case):
    log = Log()
    s, ctx, b = wrapped(case, log)
    cls = b.struct(s)
    kind, c = case["choices"][case["i"]]
    v = case["value"]
    i, n = case["i"], case["n"]
    sibs = {"i": i, "n": n}
    # The choice alone
    if kind == "s":
        alone_cls = b.struct(c)
        enc = ref.enc_struct(c, v, ctx)
        eq_bytes(b.make(c, v).to_bytes(ctx), enc, "the choice alone")
        forms = [("dict", b.kwargs(c, v, 0, ctx)), ("instance", b.make(c, v, case["how"], ctx)),
                 ("instance of a subclass", type("Kid", (alone_cls,), {})(
                     **b.kwargs(c, v, case["how"], ctx))),
                 ("mapping", types.MappingProxyType(b.kwargs(c, v, 0, ctx))),
                 ("ordered", collections.OrderedDict(b.kwargs(c, v, case["how"], ctx)))]
        want, end = ref.dec_struct(c, enc, 0, ctx)
        eq(plain(alone_cls.from_bytes(enc, ctx)), want, "the choice alone")
    else:
        fld = b.field(c)
        enc = ref.enc_value(c, v, sibs, ctx)
        eq_bytes(fld.to_bytes(b.arg(c, v, 0, sibs, ctx), ctx, sibs), enc, "the choice alone")
        forms = [("value", b.arg(c, v, case["how"], sibs, ctx))]
        want, end = ref.dec_value(c, enc, 0, sibs, ctx)
        eq(plain(fld.from_bytes(enc, ctx, True, sibs)), want, "the choice alone")
    check(end == len(enc), "harness: ambiguous choice")
    data = bytes([i, n]) + enc + b"qq"
    choices = cls.v.choices
    check(len(choices) == len(case["choices"]), "%d choices", len(choices))
    for form, x in forms:
        what = "%s given as %s" % (kind, form)
        inst = cls(i=i, n=n, v=x, q=b"qq")
        log.calls.clear()
        eq_bytes(inst.to_bytes(ctx), data, what)
        calls = own(log, "dump", choices)
        for call in calls:
            _, got, options, context, vals = call
            if kind == "f":
                eq(plain(got), v, "%s: the data the decider got" % what)
            check(context is ctx, "the decider got the context %r", context)
            eq({k: vals[k] for k in "inq"}, {**sibs, "q": b"qq"}, "the decider's fields")
        eq_bytes(dump_stream(lambda st_: cls.v.to_stream(
            st_, x, ctx, {**sibs, "q": b"qq"})), enc, what + ", alone")
    for junk in (b"", b"\0\0\0"):
        stream = io.BytesIO(b"%%" + data + junk)
        stream.seek(2)
        log.calls.clear()
        got = cls.from_stream(stream, ctx)
        check(stream.tell() == 2 + len(data), "at %d of %d", stream.tell() - 2, len(data))
        eq(plain(got), {**sibs, "v": want, "q": b"qq"}, "loading a %s" % kind)
        if kind == "s":
            check(type(got.v) is b.struct(c), "loaded a %s", type(got.v))
        _, _st, options, context, vals, at = own(log, "load", choices)[0]
        check(context is ctx, "the decider got the context %r", context)
        check(vals == sibs, "the decider got the fields %r", vals)
        check(at == 4, "the decider got the stream at %d", at)
        eq_bytes(got.to_bytes(ctx), data, "dumping it again") if redumps(c, kind) else None
    if not gen.reads_to_eof({"fields": [{"k": "union", "choices": [(kind, c)]}]}):
        for m in range(1, len(data)):
            bad = kinds(lambda: ref.dec_struct(s, data[:m], 0, ctx))
            if bad is None:
                continue
            with raising(bad, "cut at %d", m):
                cls.from_bytes(data[:m], ctx)
    return len(enc) > 1


def own(log, what, choices):
    """The calls of this union's decider, not of others inside it."""
    calls = [c for c in log.calls if c[0] == what and len(c[2]) == len(choices)
             and all(x is y for x, y in zip(c[2], choices))]
    check(calls, "the %s decider wasn't called with the choices %r, but %r", what, choices,
          log.calls)
    return calls


def redumps(c, kind):
    if kind == "f":
        return c.get("pad") is None or c["k"] == "str"
    return not any(f.get("discard") or f.get("pad") is not None and f["k"] == "strz"
                   or f.get("npv") for f in gen.walk(c)) and True


def nested(case):
    """A nested struct alone, and what it holds in turn, to any depth."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    want = sut.bytes(values)
    cls = sut.cls
    loaded, end = ref.dec_struct(sut.schema, want, 0, ctx)
    check(end == len(want), "harness: ambiguous")
    fld = fields.Nested(cls)
    deep = fld
    outer = None
    for level in range(case["levels"]):
        outer = type("L%d" % level, (binobj.Struct,), {"x": deep})
        deep = fields.Nested(outer)
    forms = [sut.builder.kwargs(sut.schema, values, h, ctx) for h in (0, case["how"])]
    forms += [sut.make(values, h) for h in (0, case["how"])]
    forms += [types.MappingProxyType(forms[0]), type("Kid", (cls,), {})(**forms[1])]
    for x in forms:
        eq_bytes(fld.to_bytes(x, ctx), want, "alone from a %s" % type(x).__name__)
        y = x
        for level in range(case["levels"]):
            y = {"x": y}
        eq_bytes(deep.to_bytes(y, ctx), want, "nested %d times" % case["levels"])
        if outer is not None:
            eq_bytes(outer(**y).to_bytes(ctx), want, "in a struct")
    got = fld.from_bytes(want, ctx)
    check(type(got) is cls, "loaded a %s", type(got))
    eq(plain(got), loaded, "alone")
    got = deep.from_bytes(want, ctx)
    for level in range(case["levels"]):
        got = got.x
    check(type(got) is cls, "loaded a %s", type(got))
    eq(plain(got), loaded, "nested %d times" % case["levels"])
    eq(fld.size, cls.get_size(), "the size")
    if not gen.reads_to_eof(sut.schema):
        stream = io.BytesIO(b"!" + want + b"!!")
        stream.seek(1)
        got = deep.from_stream(stream, ctx)
        for level in range(case["levels"]):
            got = got.x
        eq(plain(got), loaded, "in a stream")
        check(stream.tell() == 1 + len(want), "at %d of %d", stream.tell() - 1, len(want))
    return len(want) > 1


class NotAStruct:
    def __init__(self, **kw):
        pass


class Other(binobj.Struct):
    x = fields.UInt8()


WRONG = {
    "none": None, "int": 3, "str": "x", "class": NotAStruct, "object": NotAStruct(),
    "field class": fields.UInt8, "type": type, "dict": {}, "list": [fields.UInt8()],
}


def wrong(case):
    """Deciders that don't choose a field or a struct."""
    bad = WRONG[case["wrong"]]
    on_load = on_dump = bad
    ok = lambda *_: fields.UInt8()
    cls_load = type("L", (binobj.Struct,), {
        "p": fields.UInt8(),
        "v": fields.Union(fields.UInt8(), Other, load_decider=lambda *_: bad,
                          dump_decider=ok)})
    cls_dump = type("D", (binobj.Struct,), {
        "p": fields.UInt8(),
        "v": fields.Union(fields.UInt8(), Other, load_decider=ok,
                          dump_decider=lambda *_: bad)})
    data, v = case["data"], case["v"]
    with raising(TypeError, "loading with the choice %r" % bad):
        cls_load.from_bytes(data)
    with raising(TypeError, "loading with the choice %r" % bad):
        cls_load.v.from_bytes(data)
    stream = io.BytesIO()
    with raising(TypeError, "dumping %r with the choice %r" % (v, bad)):
        cls_dump(p=1, v=v).to_stream(stream)
    check(b"\1".startswith(stream.getvalue()), "%r was written", stream.getvalue())
    stream = io.BytesIO()
    with raising(TypeError, "dumping %r with the choice %r" % (v, bad)):
        cls_dump.v.to_stream(stream, v)
    eq_bytes(stream.getvalue(), b"", "after the refusal")
    eq_bytes(cls_load(p=1, v=2).to_bytes(), b"\1\2", "a decider that's right")
    eq(cls_dump.from_bytes(b"\1\2").v, 2, "a decider that's right")
    with raising(errors.ConfigurationError, "a union of field classes"):
        fields.Union(Other, fields.UInt8, load_decider=ok, dump_decider=ok)
    return len(data) > 1


@st.composite
def _union(draw):
    g = gen.Gen(draw, gen.opts(eof=False, bom=False, null=True))
    choices = []
    n = g.int(0, 3)
    for _ in range(g.int(2, 4)):
        if g.chance(2):
            choices.append(("f", g.dependent("n")))
            choices[-1][1].update({k: ["ref", "n", "n"] for k in ("size", "count")
                                   if k in choices[-1][1]})
        elif g.chance(4):
            choices.append(("s", g.schema(1, top=False)))
        else:
            k = g.chance(1)
            c = g.scalar()
            if k:
                c = {"k": "array", "comp": c, "count": g.int(0, 2)}
            choices.append(("f", c))
    i = g.int(0, len(choices) - 1)
    ctx = {"c0": g.chance(4), "c1": g.chance(4), "u0": g.int(0, 1)}
    by = "field"
    inner = {"fields": [{"k": "union", "choices": choices, "by": ["field", "i"]}]}
    if not gen.needs_ctx(inner) and g.chance(3):
        by = "ctx"
        ctx["u0"] = i
    kind, c = choices[i]
    value = g.values(c, ctx) if kind == "s" else g.value(c, {"n": n}, ctx)
    return {"choices": choices, "i": i, "n": n, "ctx": g.context(ctx), "by": by, "value": value,
            "how": g.int(0, 3)}


SUBS = [
    Sub("union", _union(), union, n=2500),
    Sub("nested", gen.cases(gen.opts(depth=4, groups=(1, 2), more=("nested", "union"),
                                     bom=False),
                            extra=lambda g, c: {"levels": g.int(0, 4)}), nested, n=2000),
    Sub("wrong", st.builds(lambda w, d, v: {"wrong": w, "data": d, "v": v},
                           st.sampled_from(sorted(WRONG)), st.binary(min_size=1, max_size=4),
                           st.one_of(st.integers(0, 9), st.just({"x": 1}))),
        wrong, n=300),
]
