"""C02: loading what was dumped returns the same values, and re-dumps identically."""
import collections
import io
import types

from .. import gen, ref
from ..common import Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Cases are generated schemas with values and a context. The struct is dumped, loaded"
    " and dumped again; values are compared with an independent decoding of the bytes and"
    " with the values given. Non-trivial: at least two bytes and two fields."
)

LOSSLESS = {"int", "vli", "bytes", "uuid"}


def roundtrip(case):
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    data = sut.make(values).to_bytes(ctx)
    loaded = sut.cls.from_bytes(data, ctx)
    check(type(loaded) is sut.cls, "from_bytes returned a %s", type(loaded))
    got = plain(loaded)
    # what the bytes mean
    want, end = ref.dec_struct(sut.schema, sut.bytes(values), 0, ctx)
    eq(got, want, "from_bytes")
    # what was given
    env = ref.effective(sut.schema, values, ctx)
    for f in ref.all_fields(sut.schema):
        n = f["name"]
        if f.get("discard"):
            check(n not in got, "discarded field %s was kept", n)
        elif env[n] is ABSENT:
            npv = f.get("npv")
            eq(got[n], ABSENT if npv is None else npv[0], "absent field %s", n)
        elif env[n] is None:
            eq(got[n], None, "null field %s", n)
        elif f["k"] in LOSSLESS and f.get("null") is None:
            eq(got[n], env[n], "field %s", n)
    # dumping it again
    try:
        again = ref.enc_struct(sut.schema, want, ctx)
    except (ref.RefMissing, ref.RefInvalid):
        # (Invalid: others' presence depends on a discarded value.)
        again = None
    if again is not None:
        eq_bytes(loaded.to_bytes(ctx), again, "dump of the loaded struct")
        if not any(f.get("discard") for f in gen.walk(sut.schema)):
            eq_bytes(again, data, "second dump")
    return len(data) >= 2 and len(env) >= 2


def dicts(case):
    """to_dict() of a loaded struct gives its values, as plain Python objects."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    data = sut.make(values).to_bytes(ctx)
    loaded = sut.cls.from_stream(io.BytesIO(data), ctx)
    want, _ = ref.dec_struct(sut.schema, data, 0, ctx)
    dct = loaded.to_dict(context=ctx)
    check(type(dct) is dict, "to_dict() returned a %s", type(dct))
    only_plain(dct)
    # absent fields are left out of the serialization whatever value they loaded as
    expected = as_dict(sut.schema, want, ctx)
    eq(plain(dct), expected, "to_dict()")
    # The same struct built from all kinds of mappings, sequences and instances
    for keep in (False, True):
        got = []
        for how in (0, 1, 2, 3):
            dct = sut.make(values, how).to_dict(keep, ctx)
            only_plain(dct)
            if how in (1, 3):
                got.append(plain(dct))
        eq(*got, "to_dict() with lists, with tuples")
        for seq in (tuple, collections.deque):
            dct = sut.cls(**{n: other(v, seq) for n, v in sut.builder.kwargs(
                sut.schema, values, 0, ctx).items()}).to_dict(keep, ctx)
            only_plain(dct)
            eq(plain(dct), plain(sut.make(values, 0).to_dict(keep, ctx)),
               "to_dict() with %ss" % seq.__name__)
    return len(want) >= 2


def other(v, seq):
    """The same value with other kinds of mappings and sequences in it."""
    if isinstance(v, dict):
        return types.MappingProxyType({k: other(x, seq) for k, x in v.items()})
    if isinstance(v, (list, tuple)):
        return seq(other(x, seq) for x in v)
    return v


def as_dict(s, values, ctx):
    out = {}
    full = None
    for f in ref.all_fields(s):
        if f.get("discard"):
            continue
        n = f["name"]
        v = values[n]
        if f.get("present"):
            env = dict(values)
            for g in ref.all_fields(s):
                if g["name"] not in env:
                    env[g["name"]] = ABSENT
            if not ref.holds(f["present"], env, ctx):
                out[n] = ABSENT
                continue
        out[n] = _plain(f, v, values, ctx)
    return out


def _plain(f, v, env, ctx):
    if v is None or v is ABSENT:
        return v
    if f["k"] == "array":
        return [_plain(f["comp"], x, env, ctx) for x in v]
    if f["k"] == "nested":
        return as_dict(f["struct"], v, ctx)
    if f["k"] == "union":
        i = env[f["by"][1]] if f["by"][0] == "field" else ctx[f["by"][1]]
        kind, c = f["choices"][i]
        return as_dict(c, v, ctx) if kind == "s" else _plain(c, v, env, ctx)
    return v


def only_plain(v):
    import binobj

    check(not isinstance(v, binobj.Struct), "a struct is left in a dictionary")
    if isinstance(v, dict):
        for x in v.values():
            only_plain(x)
    elif isinstance(v, (list, tuple)):
        check(type(v) is list, "a %s in a dictionary", type(v))
        for x in v:
            only_plain(x)


def again(case):
    """Loading, dumping, loading: the same object and bytes each time."""
    sut = Sut(case)
    ctx = sut.ctx
    n = 0
    for values in case["values"]:
        data = sut.make(values).to_bytes(ctx)
        one = sut.cls.from_bytes(data, ctx)
        b1 = one.to_bytes(ctx)
        eq_bytes(b1, data, "second dump")
        two = sut.cls.from_bytes(b1, ctx)
        eq(plain(two), plain(one), "second load")
        check(one == two, "two loads of the same bytes differ")
        eq_bytes(two.to_bytes(ctx), data, "third dump")
        # the same values given explicitly
        rebuilt = sut.make(plain(one))
        eq_bytes(rebuilt.to_bytes(ctx), data, "dump of the loaded values")
        n += len(data)
    return n >= 4


SUBS = [
    Sub("roundtrip", gen.cases(), roundtrip, n=5000),
    Sub("wide", gen.cases(gen.opts(groups=(15, 40), depth=1, eof=False)), roundtrip, n=160),
    Sub("dicts", gen.cases(gen.opts(discard=False)), dicts, n=1500),
    Sub("dicts-discard", gen.cases(gen.opts(cond=False)), dicts, n=800),
    Sub("again", gen.cases(gen.opts(discard=False), n_values=2), again, n=1500),
]
