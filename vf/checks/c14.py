"""C14: None is stored as the declared null value and read back as None."""
import io

from binobj import errors
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import check, plain

RULE = (
    "Every field kind (scalars, arrays, nested structs, unions, sized by numbers and by"
    " other fields) with every form of null value; dumped as None and as other values;"
    " loaded from the null bytes, from mutations, prefixes and extensions of them, at the"
    " end of the data and before more; alone, in structs, arrays and nested structs."
    " Oracle: an independent encoder and decoder. Non-trivial: a null value of one byte or"
    " more was met, or narrowly missed."
)

MALFORMED = (errors.DeserializationError, errors.ValidationError, ValueError,
             OverflowError, OSError)


def schema_for(f, name="v"):
    fs = [{"k": "int", "name": "p", "size": 1, "signed": False}]
    fs.append({**f, "name": name})
    fs.append({"k": "bytes", "name": "q", "size": 2})
    return {"fields": fs}


def expect(s, data, ctx, pos=0):
    try:
        return ref.dec_struct(s, data, pos, ctx)
    except ref.RefEOF:
        if any(f["k"] == "strz" for f in gen.walk(s)):
            # Text can also be malformed before it ends.
            return errors.UnexpectedEOFError, UnicodeError
        return errors.UnexpectedEOFError
    except ref.RefInvalid:
        return MALFORMED


def load(cls, s, data, ctx, what):
    want = expect(s, data, ctx)
    stream = io.BytesIO(b"\xee" + data)
    stream.seek(1)
    if not isinstance(want, tuple) or not isinstance(want[0], dict):
        excs = want if isinstance(want, tuple) else (want,)
        with raising(excs, "loading %r (%s)" % (data, what)):
            cls.from_stream(stream, ctx)
        return None
    got = cls.from_stream(stream, ctx)
    eq(plain(got), want[0], "loading %r (%s)" % (data, what))
    check(stream.tell() == 1 + want[1], "loading %r (%s) consumed %d bytes, not %d", data,
          what, stream.tell() - 1, want[1])
    return got


def otherwise(f, b):
    """Other ways of writing what's written as b."""
    k, fmt = f["k"], f.get("fmt")
    if k == "vli" and b:
        for n in (1, 2):
            if f.get("max") is not None and len(b) + n > f["max"]:
                break
            if fmt == "vlq":
                yield b"\x80" * n + b
            elif fmt == "compact":
                yield (bytes([0x80 | b[0] & 0x40]) + b"\x80" * (n - 1)
                       + bytes([b[0] & 0xBF]) + b[1:])
            else:
                more = 0x7F if fmt == "leb128" and b[-1] & 0x40 else 0
                yield b[:-1] + bytes([b[-1] | 0x80] + [more | 0x80] * (n - 1) + [more])
    elif k == "strz" and isinstance(f.get("size"), int):
        w = 2 if "16" in f["encoding"] else 4 if "32" in f["encoding"] else 1
        for junk in ("a", "zz", "\0b"):
            junk = junk.encode({1: "ascii", 2: "utf-16-le", 4: "utf-32-le"}[w])
            if b.endswith(b"\0" * (len(junk) + w)):
                yield b[:-len(junk)] + junk
    elif k == "uuid" and f["stored"] in ("canon", "hex"):
        yield b.upper()
        yield b.swapcase()[:5] + b[5:]
    elif k == "float":
        yield bytes(len(b))
        for x in (b"\x80" + bytes(len(b) - 1), bytes(len(b) - 1) + b"\x80"):
            yield x


def sized_twice(f, ctx, sizes):
    """None takes as many bytes as the other field says, each time."""
    s = schema_for({**f, "size": ["ref", "p", f["size_by"]]})
    b = spec.Builder()
    cls = b.struct(s)
    for n in sizes:
        want = bytes([n]) + bytes(n) + b"ab"
        eq_bytes(cls(p=n, v=None, q=b"ab").to_bytes(ctx), want, "None of %d bytes", n)
        load(cls, s, want, ctx, "the null value of %d bytes" % n)
        for d in (-1, 1):
            if n + d > 0:
                load(cls, s, bytes([n + d]) + bytes(n + 4), ctx, "nulls")
                load(cls, s, bytes([n + d]) + bytes(n) + b"abcd", ctx, "some nulls")


def nulls(case):
    f, ctx = case["f"], case["ctx"]
    s = schema_for(f)
    if f.get("size_by"):
        # sized by another field
        n = case["n"]
        g = {k: v for k, v in f.items() if k != "size_by"}
        g["size"] = ["ref", "p", f["size_by"]]
        s = schema_for(g)
        f = {**g, "size": n}
        p = n
    else:
        p = 7
    r = ref.null_repr(f, {})
    v = case["value"]
    b = spec.Builder()
    cls = b.struct(s)
    none = cls(p=p, v=None, q=b"ab")
    want = bytes([p]) + r + b"ab"
    eq_bytes(none.to_bytes(ctx), want, "None as %r" % f)
    if not case["f"].get("size_by"):
        fld = b.field(f)
        eq_bytes(fld.to_bytes(None, ctx), r, "None alone as %r" % f)
        stream = io.BytesIO()
        fld.to_stream(stream, None, ctx)
        eq_bytes(stream.getvalue(), r, "None alone as %r" % f)
        check(fld.from_bytes(r, ctx) is None, "%r isn't None alone by %r", r, f)
        for after in (b"", b"\0", r, b"xy"):
            stream = io.BytesIO(b"zz" + r + after)
            stream.seek(2)
            check(fld.from_stream(stream, ctx) is None, "%r isn't None by %r", r + after, f)
            check(stream.tell() == 2 + len(r), "consumed %d bytes of the null %r",
                  stream.tell() - 2, r)
    check(none.v is None and none["v"] is None, "the struct gives %r", none.v)
    got = load(cls, s, want, ctx, "the null value")
    check(got.v is None, "%r loaded as %r", want, got.v)
    eq_bytes(got.to_bytes(ctx), want, "dumping it again")
    check(cls.get_field(io.BytesIO(want), "v", ctx) is None, "get_field isn't None")
    if ref.size_of(f, {}) is not None or not gen.needs_ctx(s):
        check(len(none) == len(want), "len() is %s of %r", len(none), want)

    # Other values
    enc = ref.enc_value(f, v, {}, ctx)
    full = cls(p=p, v=b.arg(f, v, 0, {}, ctx), q=b"ab")
    eq_bytes(full.to_bytes(ctx), bytes([p]) + enc + b"ab", "%r by %r" % (v, f))
    load(cls, s, bytes([p]) + enc + b"ab", ctx, "another value")
    for data in {*otherwise(f, r), *otherwise(f, enc)}:
        load(cls, s, bytes([p]) + data + b"ab", ctx, "written otherwise")
    if case["f"].get("size_by") and f["null"][0] == "default":
        sized_twice(case["f"], ctx, case.get("sizes", []))
    # Almost the null value
    for i in {0, len(r) - 1, len(r) // 2}:
        if r:
            m = bytearray(r)
            m[i] ^= case["flip"]
            load(cls, s, bytes([p]) + bytes(m) + b"ab", ctx, "not quite null")
    # The end of the data within the null value
    for m in range(len(want)):
        load(cls, s, want[:m], ctx, "truncated")
    for data in (enc, enc + r, r + enc):
        load(cls, s, bytes([p]) + data, ctx, "at the end")
    return bool(r)


def inside(case):
    """Nullable elements of arrays, and nullable fields of nested structs."""
    f, ctx, items = case["f"], case["ctx"], case["items"]
    r = ref.null_repr(f, {})
    arr = {"k": "array", "comp": f, "count": len(items), "name": "v"}
    inner = {"fields": [{"k": "int", "name": "w", "size": 1, "signed": False},
                        {**f, "name": "x"}]}
    s = {"fields": [
        arr, {"k": "array", "name": "n", "count": len(items),
              "comp": {"k": "nested", "struct": inner}},
        {"k": "int", "name": "q", "size": 1, "signed": False}]}
    values = {"v": items, "n": [{"w": 3, "x": x} for x in items], "q": 9}
    sut = Sut({"schema": s, "ctx": ctx, "how": case["how"]})
    want = sut.bytes(values)
    eq_bytes(sut.make(values).to_bytes(ctx), want, "in an array and nested")
    loaded, end = ref.dec_struct(s, want, 0, ctx)
    check(end == len(want), "harness: ambiguous")
    got = sut.cls.from_bytes(want, ctx)
    eq(plain(got), loaded, "loading from an array and nested")
    for i, x in enumerate(items):
        if x is None:
            check(got.v[i] is None and got.n[i].x is None, "loaded %r", got)
    eq_bytes(got.to_bytes(ctx), want, "dumping again")
    return bool(r) and None in items


def non_null(case):
    f, ctx = case["f"], case["ctx"]
    s = schema_for(f)
    b = spec.Builder()
    cls, fld = b.struct(s), b.field(f)
    stream = io.BytesIO(b"..")
    stream.seek(2)
    with raising(errors.SerializationError, "None by %r" % f):
        fld.to_stream(stream, None, ctx)
    eq_bytes(stream.getvalue(), b"..", "after rejecting None")
    with raising(errors.SerializationError, "None by %r" % f):
        fld.to_bytes(None, ctx)
    with raising(errors.SerializationError, "None in a struct by %r" % f):
        cls(p=1, v=None, q=b"ab").to_bytes(ctx)
    enc = ref.enc_value(f, case["value"], {}, ctx)
    for data in (enc, b"\0" * len(enc), b"\xff" * len(enc)):
        got = load(cls, s, b"\1" + data + b"ab", ctx, "not nullable")
        check(got is None or got.v is not None, "%r loaded None", data)
    arr = {"k": "array", "comp": f, "count": 2}
    with raising(errors.SerializationError, "None in an array of %r" % f):
        b.field(arr).to_bytes([b.arg(f, case["value"], 0, {}, ctx), None], ctx)
    return len(enc) > 0


def _kind(g, composite=True):
    kinds = ["scalar"] * 5 + (["array", "nested", "union"] if composite else [])
    kind = g.pick(kinds)
    if kind == "scalar":
        return g.scalar()
    if kind == "array":
        return {"k": "array", "comp": g.scalar(), "count": g.int(1, 3)}
    if kind == "nested":
        return {"k": "nested", "struct": {"fields": [
            {**g.scalar(), "name": "a"}, {**g.scalar(), "name": "b"}]}}
    return {"k": "union", "by": ["ctx", "u0"],
            "choices": [("f", g.scalar()), ("f", g.scalar())]}


def _null(g, f):
    k = f["k"]
    n = ref.fixed_size(f)
    if k in ("array", "nested", "union"):
        if n and g.chance(4):
            f["null"] = ("default",)
        else:
            f["null"] = ("bytes", g.draw(st.binary(min_size=1, max_size=5))
                         if n is None else g.draw(st.binary(min_size=n, max_size=n)))
    elif k in ("vli", "strz") and n is None and g.chance(4):
        f["null"] = ("bytes", g.draw(st.binary(min_size=1, max_size=5)))
    else:
        g.nullable(f)


@st.composite
def _nulls(draw):
    g = gen.Gen(draw, gen.opts(bom=False))
    f = _kind(g)
    _null(g, f)
    ctx = g.context({"u0": g.int(0, 1)})
    n = None
    if f["k"] in ("bytes", "str") and f.get("null") and f["size"] and g.chance(3):
        n = f["size"]
        f["size_by"] = g.pick(["f", "n"])
    if not f.get("null") or not ref.null_repr(f, {}):
        f = {"k": "int", "size": 2, "signed": False, "endian": "big", "null": ("default",)}
        n = None
    return {"f": f, "ctx": ctx, "n": n, "value": g.value(f, {}, ctx),
            "flip": g.pick([1, 0x80, 0xFF, 0x20]),
            "sizes": [g.int(0, 9) for _ in range(g.int(1, 3))]}


@st.composite
def _inside(draw):
    g = gen.Gen(draw, gen.opts(bom=False))
    f = g.scalar()
    g.nullable(f)
    if not f.get("null"):
        f = {"k": "int", "size": 2, "signed": False, "endian": "big", "null": ("default",)}
    ctx = g.context({"u0": g.int(0, 1)})
    items = [g.maybe_none(f, {}, ctx) for _ in range(g.int(0, 4))]
    return {"f": f, "ctx": ctx, "items": items, "how": g.int(0, 3)}


@st.composite
def _non_null(draw):
    g = gen.Gen(draw, gen.opts(bom=False))
    f = _kind(g)
    ctx = g.context({"u0": g.int(0, 1)})
    return {"f": f, "ctx": ctx, "value": g.value(f, {}, ctx)}


def misfit(case):
    """Null bytes of another size than the field's are padded or refused, never written."""
    f, null, ctx = case["f"], case["null"], case["ctx"]
    n, pad = ref.fixed_size(f), f.get("pad")
    f = {**f, "null": ("bytes", null)}
    s = schema_for(f)
    fits = pad is not None and len(null) < n
    # What should happen: that it has null bytes of that size, or none.
    g = {**f, "null": ("bytes", null + pad * (n - len(null))) if fits else None}
    t = schema_for(g)
    b = spec.Builder()
    cls, c = b.struct(s), spec.Builder().struct(t)
    eq((cls.get_size(), cls.v.offset, cls.q.offset), (n + 3, 1, n + 1), "the layout")
    fld = b.field({**f, "name": "v"})
    values = {"p": 1, "v": None, "q": b"ab"}
    if fits:
        want = b"\1" + g["null"][1] + b"ab"
        eq_bytes(cls(**values).to_bytes(ctx), want, "None")
        eq_bytes(fld.to_bytes(None, ctx), want[1:-2], "None alone")
        eq(len(cls(**values)), n + 3, "len()")
    else:
        for what, dump in (("to_bytes()", lambda: cls(**values).to_bytes(ctx)),
                           ("the field alone", lambda: fld.to_bytes(None, ctx))):
            with raising(errors.SerializationError, "None, %s", what):
                dump()
    values["v"] = case["value"]
    good = ref.enc_struct(t, values, ctx)
    eq_bytes(b.make(s, values, 0, ctx).to_bytes(ctx), good, "another value")
    for data in (good, b"\1" + null + b"ab", b"\1" + null + b"\0" * n + b"ab",
                 b"\1" + (null * n)[:n] + b"ab",
                 b"\1" + (null + (pad or b"\0") * n)[:n] + b"ab"):
        load(cls, t, data, ctx, "null bytes of another size")
        stream = io.BytesIO(data)
        want = expect(t, data, ctx)
        if isinstance(want, tuple) and isinstance(want[0], dict):
            eq(plain(cls.get_field(stream, "q", ctx)), want[0]["q"], "get_field()")
    return True


@st.composite
def _misfit(draw):
    g = gen.Gen(draw, gen.opts(bom=False, null=False, default=False, const=False))
    f = _kind(g)
    n = ref.fixed_size(f)
    if not n:
        f = g.pick([{"k": "int", "size": 2, "signed": False, "endian": "big"},
                    {"k": "str", "size": 4, "encoding": "utf-8", "pad": b" "},
                    {"k": "strz", "size": 5, "encoding": "iso-8859-1", "pad": b"\0"}])
        n = ref.fixed_size(f)
    m = g.pick([x for x in (0, 1, n - 1, n + 1, 2 * n, n + 5) if x != n])
    ctx = g.context({"u0": g.int(0, 1)})
    value = g.value(f, {}, ctx)
    null = g.pick([g.draw(st.binary(min_size=m, max_size=m)), b"\0" * m,
                   (ref.enc_value(f, value, {}, ctx) * 9)[:m]])
    return {"f": f, "ctx": ctx, "value": value, "null": null}


SUBS = [
    Sub("misfit", _misfit(), misfit, n=1200),
    Sub("nulls", _nulls(), nulls, n=3000),
    Sub("inside", _inside(), inside, n=1500),
    Sub("non_null", _non_null(), non_null, n=1500),
]
