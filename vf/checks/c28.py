"""C28: arguments given when loading reach the constructor and override what's loaded."""
import copy
import io

import binobj
from binobj import errors
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Generated schemas whose classes (or a subclass) take additional constructor arguments,"
    " loaded with any mix of these, overriding field values, and unknown names, from whole,"
    " cut and extended data in streams and buffers. Oracle: an independent decoder that"
    " starts with the overriding values, and the recorded calls of the constructor."
    " Non-trivial: something was overridden or an additional argument was given."
)


def subclass(base, calls):
    class Sub(base):
        def __init__(self, extra=None, *, tag="none", **values):
            calls.append((extra, tag, dict(values)))
            super().__init__(**values)
            self.extra = extra
            self.tag = tag

    return Sub


def decode(schema, data, pos, ctx, given):
    env = dict(given)
    for f in ref.all_fields(schema):
        v, pos = ref.dec_field(f, data, pos, env, ctx)
        env.setdefault(f["name"], v)
    return env, pos


def overriding(case):
    sut = Sut(case)
    ctx, values = sut.ctx, case["values"]
    data = sut.bytes(values)
    fs = ref.all_fields(sut.schema)
    given = {n: v for n, v in case["given"].items()}
    fixed = {f["name"] for f in fs if f.get("computed")}
    given = {n: v for n, v in given.items() if n not in fixed}
    calls = []
    cls = subclass(sut.cls, calls)
    kw = sut.builder.kwargs(sut.schema, given, 0, ctx)
    extra = {}
    if case["extra"]:
        extra["extra"] = {"list": [1, 2], "inner": {"a": b"b"}}
    if case["extra"] > 1:
        extra["tag"] = "a tag"
    kw.update(extra)
    try:
        want, end = decode(sut.schema, data, 0, ctx, given)
    except ref.RefError:
        return False    # The values that are overridden determine how others are read.
    before = copy.deepcopy(kw)
    junk = b"" if gen.reads_to_eof(sut.schema) else case["junk"]
    keep = {f["name"]: want[f["name"]] for f in fs if not f.get("discard")}

    def stream():
        s = io.BytesIO(b"%" + data + junk)
        s.seek(1)
        return s

    s = stream()
    ways = [
        lambda: cls.from_stream(s, ctx, kw),
        lambda: cls.from_stream(stream(), context=ctx, init_kwargs=kw),
        lambda: cls.from_bytes(data + junk, ctx, False, kw),
        lambda: cls.from_bytes(data + junk, exact=False, context=ctx, init_kwargs=kw),
    ]
    if end == len(data):
        ways.append(lambda: cls.from_bytes(data, ctx, init_kwargs=kw))
        ways.append(lambda: cls.from_bytes(bytearray(data), ctx, True, kw))
    for i, way in enumerate(ways):
        calls.clear()
        got = way()
        check(type(got) is cls, "way %d: a %s", i, type(got))
        eq(plain(got), keep, "way %d with %r" % (i, given))
        check(len(calls) == 1, "way %d: the constructor was called %d times", i, len(calls))
        a_extra, a_tag, a_values = calls[0]
        check(a_extra == extra.get("extra") and a_tag == extra.get("tag", "none"),
              "way %d: the constructor got %r, %r", i, a_extra, a_tag)
        check(got.extra == a_extra and got.tag == a_tag, "way %d: attributes", i)
        eq(plain(kw), plain(before), "way %d: the arguments afterwards" % i)
        check(set(kw) == set(before), "way %d: the arguments afterwards", i)
        # The struct doesn't share anything with the arguments
        if a_extra is not None:
            got.extra["list"].append(3)
            got.extra["inner"]["a"] = 0
        for n in given:
            v = kw[n]
            if isinstance(v, list) and n in keep:
                x = got[n]
                if isinstance(x, list):
                    x.append(99)
            elif isinstance(v, dict) and n in keep:
                x = got[n]
                if isinstance(x, dict):
                    x["zz"] = 99
        eq(plain(kw), plain(before), "way %d: the arguments after changing the struct" % i)
    check(s.tell() == 1 + end, "the stream is at %d, not %d", s.tell() - 1, end)
    # Without arguments: as ever
    plainly, _ = ref.dec_struct(sut.schema, data, 0, ctx)
    for none in (None, {}):
        calls.clear()
        got = cls.from_bytes(data, ctx, True, none)
        eq(plain(got), plainly, "with %r" % (none,))
        check(got.extra is None and got.tag == "none", "with %r: the attributes", none)
    # Only the class itself takes these
    if extra:
        with raising(errors.UnexpectedValueError, "additional arguments"):
            sut.cls.from_stream(stream(), ctx, kw)
    with raising((errors.UnexpectedValueError, TypeError), "unknown arguments"):
        cls.from_stream(stream(), ctx, {**kw, "no such": 1})
    eq(plain(kw), plain(before), "the arguments after failures")
    # Validity of the data isn't affected
    if data and not gen.reads_to_eof(sut.schema):
        for m in {0, len(data) // 2, end - 1}:
            try:
                decode(sut.schema, data[:m], 0, ctx, given)
            except ref.RefEOF:
                with raising(errors.UnexpectedEOFError, "cut at %d", m):
                    cls.from_bytes(data[:m], ctx, init_kwargs=kw)
            except ref.RefError:
                pass
    if len(data + junk) > end:
        with raising(errors.ExtraneousDataError, "leftovers"):
            cls.from_bytes(data + junk, ctx, init_kwargs=kw)
    return bool(given or extra)


def _given(g, c):
    s, ctx, values = c["schema"], c["ctx"], c["values"]
    env = ref.effective(s, values, ctx)
    other = ref.effective(s, g.values(s, ctx), ctx)
    given = {}
    for f in ref.all_fields(s):
        n = f["name"]
        if f.get("const") or f.get("computed") or other[n] is ABSENT or env[n] is ABSENT:
            continue
        if g.chance(3):
            given[n] = other[n]
    return {"given": given, "extra": g.int(0, 2), "junk": g.draw(st.binary(max_size=3))}


SUBS = [
    Sub("overriding", gen.cases(gen.opts(), extra=_given), overriding, n=2500),
    Sub("independent", gen.cases(gen.opts(refs=False, cond=False, union=False, null=False),
                                 extra=_given), overriding, n=2000),
]
