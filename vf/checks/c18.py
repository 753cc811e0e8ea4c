"""C18: arrays hold exactly the declared number of elements."""
import collections
import io
from collections.abc import Sequence

import binobj
from binobj import errors, fields
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import Sut, eq, eq_bytes, kinds, raising
from ..runner import Sub
from ..values import Falsy, check, plain

RULE = (
    "Arrays of every kind of component (nullable ones, nested structs, arrays) with no"
    " count, a constant count and a count from another field by name or object, zero"
    " included; given lists, tuples, generators, iterators, deques, views, ranges and"
    " byte strings of the right length and of others; loaded with counts, to the end of"
    " the data, to where a size says, and with halt checks that keep or drop their sentinel. Oracle:"
    " concatenation of the elements' encodings by an independent encoder. Non-trivial: at"
    " least two elements, or a refused length."
)


class Seq(Sequence):
    """A sequence that isn't a list."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class Once:
    """An iterable without a length that can be used once."""

    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self.items


class Unsized:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


KINDS = {
    "list": list, "tuple": tuple, "deque": collections.deque, "seq": Seq,
    "keys": lambda x: dict.fromkeys(range(len(x))) and dict(enumerate(x)).values(),
    "iter": lambda x: iter(list(x)), "gen": lambda x: (y for y in x),
    "once": Once, "unsized": Unsized, "map": lambda x: map(lambda y: y, x),
}


def counts(case):
    """Right and wrong numbers of elements, from all sorts of iterables."""
    comp, ctx, items = case["comp"], case["ctx"], case["items"]
    n = case["n"]
    b = spec.Builder()
    f = {"k": "array", "comp": comp}
    fs = [{"k": "int", "name": "p", "size": 1, "signed": True}]
    if case["form"] == "none":
        want_n = None
    elif case["form"] == "const":
        f["count"] = want_n = n
    else:
        f["count"] = ["ref", "p", case["form"]]
        want_n = n
    fs.append({**f, "name": "v"})
    fs.append({"k": "int", "name": "q", "size": 1, "signed": False})
    s = {"fields": fs}
    cls = b.struct(s)
    fld = cls.v
    body = b"".join(ref.enc_value(comp, x, {}, ctx) for x in items)
    bad = want_n is not None and want_n != len(items)
    for kind, make in KINDS.items():
        if kind not in case["kinds"]:
            continue
        args = [b.arg(comp, x, case["how"], {}, ctx) for x in items]
        for alone in (True, False):
            stream = io.BytesIO(b"--")
            stream.seek(2)
            if alone:
                run = lambda: fld.to_stream(stream, make(args), ctx, {"p": n})
                want = body
            else:
                run = lambda: cls(p=n, v=make(args), q=9).to_stream(stream, ctx)
                want = ref.int_bytes(n, 1, True, "big") + body + b"\x09"
            what = "%d elements as a %s, count %s" % (len(items), kind, want_n)
            if bad:
                with raising(errors.ArraySizeError, what):
                    run()
                left = stream.getvalue()[2:]
                if alone:
                    eq_bytes(left, b"", what + ": written")
                else:
                    check(ref.int_bytes(n, 1, True, "big").startswith(left),
                          "%s: %r was written", what, left)
            else:
                run()
                eq_bytes(stream.getvalue()[2:], want, what)
        if not bad:
            eq_bytes(fld.to_bytes(make(args), ctx, {"p": n}), body, "to_bytes")
    if bad and n < 0:
        # Nothing's read for a negative number.
        data = ref.int_bytes(n, 1, True, "big") + b"\x09" + body
        stream = io.BytesIO(data)
        got = cls.from_stream(stream, ctx)
        eq(plain(got), {"p": n, "v": [], "q": 9}, "loading %r" % data)
        check(stream.tell() == 2, "consumed %d bytes of %r", stream.tell(), data)
    if bad or want_n is None:
        return bad or len(items) > 1
    data = ref.int_bytes(n, 1, True, "big") + body + b"\x09"
    loaded, end = ref.dec_struct(s, data, 0, ctx)
    check(end == len(data), "harness: ambiguous")
    one, two = cls.from_bytes(data, ctx), cls.from_bytes(data, ctx)
    for got in (one, two):
        check(type(got.v) is list, "loaded a %s", type(got.v))
        eq(plain(got), loaded, "loading %r" % data)
    check(one.v is not two.v, "the same list was loaded twice")
    one.v.append(None)
    one.v[:1] = []
    eq(plain(two), loaded, "after changing another struct's list")
    eq(plain(cls.from_bytes(data, ctx)), loaded, "after changing another struct's list")
    stream = io.BytesIO(body + b"\x09\x09")
    got = fld.from_stream(stream, ctx, {"p": n})
    eq(plain(got), loaded["v"], "loading alone")
    check(stream.tell() == len(body), "consumed %d of %d bytes", stream.tell(), len(body))
    bad = body and kinds(lambda: ref.dec_value(
        {**f, "count": n}, body[:-1], 0, {"p": n}, ctx))
    if bad:
        with raising(bad, "loading alone from a part"):
            fld.from_bytes(body[:-1], ctx, True, {"p": n})
    return len(items) > 1


def ends(case):
    """No count: up to the end of the data, or until a halt check says so."""
    comp, items, ctx = case["comp"], case["items"], case["ctx"]
    fld = spec.Builder().field({"k": "array", "comp": comp})
    body = b"".join(ref.enc_value(comp, x, {}, ctx) for x in items)
    want, _ = ref.dec_value({"k": "array", "comp": comp}, body, 0, {}, ctx)
    for before in (b"", b"\0\xff"):
        stream = io.BytesIO(before + body)
        stream.seek(len(before))
        eq(plain(fld.from_stream(stream, ctx)), want, "to the end")
        check(stream.tell() == len(before) + len(body), "at %d", stream.tell())
    cls = type("S", (binobj.Struct,), {"p": fields.UInt8(), "v": fld})
    got = cls.from_bytes(b"\5" + body, ctx)
    eq(plain(got), {"p": 5, "v": want}, "to the end in a struct")
    eq_bytes(got.to_bytes(ctx), b"\5" + body, "again")
    if len(body) > 1 and ref.fixed_size(comp):
        with raising(errors.UnexpectedEOFError, "an incomplete element"):
            cls.from_bytes(b"\5" + body + body[:1] if ref.fixed_size(comp) > 1
                           else b"", ctx)
    return len(items) > 1


def bounded(case):
    """A size: that many bytes are written and read, no more and no less."""
    comp, items, ctx, n = case["comp"], case["items"], case["ctx"], case["n"]
    b = spec.Builder()
    parts = [ref.enc_value(comp, x, {}, ctx) for x in items]
    body, size = b"".join(parts), case["size"]
    if case["form"] == "const" and n is not None and ref.fixed_size(comp) is not None:
        size = n * ref.fixed_size(comp)     # The count gives the size.
    f = {"k": "array", "comp": comp, "name": "v", "size": size}
    if case["form"] != "const":
        f["size"] = ["ref", "p", case["form"]]
    if n is not None:
        f["count"] = n if case["form"] == "const" else ["ref", "n", "n"]
    s = {"fields": [{"k": "int", "name": "p", "size": 1, "signed": False},
                    {"k": "int", "name": "n", "size": 1, "signed": False}, f,
                    {"k": "int", "name": "q", "size": 1, "signed": False}]}
    cls = b.struct(s)
    fld = cls.v
    first = {"p": size, "n": len(items) if n is None else n}
    head = bytes(first.values())
    fits = size == len(body) and n in (None, len(items))
    for kind in case["kinds"]:
        for alone in (True, False):
            v = KINDS[kind]([b.arg(comp, x, case["how"], {}, ctx) for x in items])
            stream = io.BytesIO(b"--")
            stream.seek(2)
            what = "%d elements of %d bytes in %d as a %s" % (len(items), len(body), size, kind)
            if alone:
                run, want = lambda: fld.to_stream(stream, v, ctx, dict(first)), body
            else:
                want = head + body + b"\x09"
                run = lambda: cls(**first, v=v, q=9).to_stream(stream, ctx)
            if fits:
                run()
                eq_bytes(stream.getvalue()[2:], want, what)
            else:
                with raising(errors.SerializationError, what):
                    run()
                left = stream.getvalue()[2:]
                check(left == b"" if alone else head.startswith(left),
                      "%s: %r was written", what, left)
    data = head + body + case["tail"]
    try:
        want, end = ref.dec_struct(s, data, 0, ctx)
    except ref.RefEOF:
        want, end, bad = None, None, (errors.DeserializationError, ValueError)
        if ref.fixed_size(comp) and comp["k"] != "strz":
            bad = errors.UnexpectedEOFError
    except ref.RefInvalid:
        want, end, bad = None, None, (errors.DeserializationError, errors.ValidationError,
                                      ValueError, OverflowError, OSError)
    for _ in range(2):
        stream = io.BytesIO(data)
        if want is None:
            with raising(bad, "loading %r" % data):
                cls.from_stream(stream, ctx)
            continue
        got = cls.from_stream(stream, ctx)
        eq(plain(got), want, "loading %r", data)
        check(stream.tell() == end, "consumed %d of %r", stream.tell(), data)
        stream.seek(0)
        eq(cls.get_field(stream, "q", ctx), want["q"], "the field after it")
    if fits:
        stream = io.BytesIO(body + b"\0" * 9)
        got = fld.from_stream(stream, ctx, first)
        eq(plain(got), ref.dec_struct(s, head + body + b"\x09", 0, ctx)[0]["v"], "alone")
        check(stream.tell() == len(body), "consumed %d of %d bytes", stream.tell(), len(body))
    if case["form"] == "const":
        check(fld.size == size and cls.q.offset == 2 + size, "size %r, offset %r", fld.size,
              cls.q.offset)
    return not fits or len(items) > 1


def large(case):
    """Numbers of elements around those where anybody might split them."""
    comp, n, how = case["comp"], case["n"], case["form"]
    period = case["items"]
    items = [period[i % len(period)] for i in range(n)]
    encoded = [ref.enc_value(comp, x, {}, None) for x in period]
    body = b"".join(encoded[i % len(period)] for i in range(n))
    f = {"k": "array", "comp": comp, "name": "v"}
    if how == "const":
        f["count"] = n
    elif how == "count":
        f["count"] = ["ref", "p", "n"]
    elif how == "size":
        f["size"] = len(body)
    elif how == "halt":
        f["halt"] = ["count", "p"]
    s = {"fields": [{"k": "int", "name": "p", "size": 4, "signed": False, "endian": "big"}, f]}
    head, tail = n.to_bytes(4, "big"), b""
    if how != "end":
        s["fields"].append({"k": "int", "name": "q", "size": 1, "signed": False})
        tail = b"\x5a"
    b = spec.Builder()
    cls = b.struct(s)
    want = head + body + tail
    for kind in case["kinds"]:
        inst = cls(p=n, v=KINDS[kind]([b.arg(comp, x, 0, {}, None) for x in items]),
                   **({"q": 0x5A} if tail else {}))
        check(inst.to_bytes() == want, "%d elements as a %s: other bytes", n, kind)
        if how in ("const", "count"):
            for m in (n - 1, n + 1):
                other = [b.arg(comp, period[i % len(period)], 0, {}, None) for i in range(m)]
                with raising(errors.ArraySizeError, "%d elements of %d as a %s", m, n, kind):
                    cls.v.to_bytes(KINDS[kind](other), None, {"p": n})
    for load in (lambda: cls.from_bytes(want),
                 lambda: cls.from_stream(io.BufferedReader(io.BytesIO(want)))):
        got = plain(load())
        check(len(got["v"]) == n, "%d elements of %d were loaded", len(got["v"]), n)
        check(got["v"] == items, "others of %d elements were loaded", n)
        check(got.get("q") == (0x5A if tail else None), "the field after %d elements", n)
    if body and how != "end":
        with raising(errors.DeserializationError, "one byte less of %d elements", n):
            cls.from_bytes(want[:-len(tail) - 1])
    return True


def halting(case):
    """Halt checks: by sentinel (kept or removed), by number, by what's next."""
    items, stop, how = case["items"], case["stop"], case["how"]
    seen = []
    ctx = (dict, Falsy)[case["stop"] % 2](limit=case["limit"])

    def halt(seq, stream, values, context, loaded):
        check(context is ctx, "the halt check got the context %r", context)
        check(loaded == {"p": 7}, "the halt check got the fields %r", loaded)
        check(seq is holder["v"], "the halt check got the array %r", seq)
        seen.append((stream.tell(), list(values)))
        if how == "keep":
            return bool(values) and values[-1] == stop
        if how == "drop":
            if values and values[-1] == stop:
                values.pop()
                return True
            return False
        if how == "limit":
            return len(values) >= context["limit"]
        here = stream.tell()
        b = stream.read(1)
        stream.seek(here)
        return b in (b"", bytes([stop]))

    holder = {}
    fld = holder["v"] = fields.Array(fields.UInt8(), halt_check=halt)
    cls = type("S", (binobj.Struct,), {"p": fields.UInt8(), "v": fld, "q": fields.Bytes(size=1)})
    data = bytes(items)
    if how in ("keep", "drop"):
        n = data.find(bytes([stop])) + 1 if stop in items else None
        want = items[:n] if how == "keep" else items[:n][:-1] if n else None
    elif how == "limit":
        n = case["limit"] if case["limit"] <= len(items) else None
        want = items[:n]
    else:
        n = items.index(stop) if stop in items else len(items)
        want = items[:n]
    for tail in (b"Z", b"ZZZ"):
        stream = io.BytesIO(b"\7" + data + tail)
        if how == "peek" and stop not in items and ord("Z") != stop:
            n, want = len(data) + len(tail), list(data + tail)
        if n is None or how == "peek" and n == len(data + tail):
            if n is None and how in ("keep", "drop") and stop in tail:
                continue
            if n is None and how == "limit" and case["limit"] < len(data + tail):
                continue
            with raising(errors.UnexpectedEOFError, "loading %r" % (data + tail)):
                cls.from_stream(stream, ctx)
            continue
        seen.clear()
        got = cls.from_stream(stream, ctx)
        eq(got.v, want, "loading %r" % (data + tail))
        eq_bytes(got.q, (data + tail)[n:n + 1], "the field after the array")
        check(stream.tell() == n + 2, "at %d instead of %d", stream.tell(), n + 2)
        for i, (at, values) in enumerate(seen):
            check(at == 1 + i and values == items[:i], "call %d of the halt check was at %d"
                  " with %r", i, at, values)
        check(len(seen) == n + 1, "the halt check was called %d times", len(seen))
    return n is None or n > 1


def skipping(case):
    """Components that aren't there are left out."""
    flags = case["flags"]
    pending = collections.deque(flags)
    comp = fields.UInt8(present=lambda *_: pending.popleft())
    n = sum(flags)
    data = bytes(case["bytes"][:n])
    cls = type("S", (binobj.Struct,), {
        "v": fields.Array(comp, count=n), "q": fields.Bytes(size=1)})
    got = cls.from_stream(io.BytesIO(data + b"z"))
    eq(got.v, list(data), "with absent elements")
    eq_bytes(got.q, b"z", "the field after the array")
    return n > 1


@st.composite
def _counts(draw):
    g = gen.Gen(draw, gen.opts(eof=False, bom=False))
    case = _items(g)
    n = len(case["items"])
    wrong = g.chance(3)
    case["n"] = n + g.pick([-1, 1, -n, 2, -n - 1, -n - n]) if wrong else n
    case["form"] = g.pick(["none", "const", "const", "f", "n"])
    if case["n"] < 0 and case["form"] == "const":
        case["n"] = n + 1
    case["kinds"] = g.draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=2, max_size=5,
                                    unique=True))
    case["how"] = g.int(0, 3)
    return case


def _items(g, kinds=None):
    k = g.pick(["scalar"] * 4 + ["nested", "array"]) if kinds is None else "scalar"
    if k == "scalar":
        comp = g.scalar(kinds)
        if g.chance(2):
            g.nullable(comp)
    elif k == "nested":
        comp = {"k": "nested", "struct": g.schema(1, top=False)}
    else:
        comp = {"k": "array", "comp": g.scalar(), "count": g.int(0, 2)}
    ctx = g.context({"c0": g.chance(4), "c1": g.chance(4), "u0": g.int(0, 1)})
    return {"comp": comp, "ctx": ctx,
            "items": [g.maybe_none(comp, {}, ctx) for _ in range(g.int(0, 5))]}


@st.composite
def _large(draw):
    g = gen.Gen(draw, gen.opts(eof=False, bom=False))
    comp = g.pick([
        {"k": "int", "size": 1, "signed": False}, {"k": "int", "size": 2, "signed": True,
                                                  "endian": "big"},
        {"k": "vli", "fmt": "vlq"}, {"k": "strz", "encoding": "utf-8"},
        {"k": "bytes", "size": 3}, {"k": "array", "comp": {
            "k": "int", "size": 1, "signed": False}, "count": 2},
        {"k": "nested", "struct": {"fields": [
            {"k": "int", "name": "m", "size": 1, "signed": False}]}}])
    n = (1 << g.pick([6, 7, 7, 8, 8, 8, 9, 10, 10, 11, 12])) + g.int(-2, 2)
    if g.chance(3):
        n = g.int(50, 1500)
    return {"comp": comp, "n": n, "items": [g.value(comp, {}, None)
                                            for _ in range(g.pick([1, 3, 7]))],
            "form": g.pick(["const", "count", "size", "halt", "end"]),
            "kinds": g.draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=1, max_size=2,
                                     unique=True))}


@st.composite
def _bounded(draw):
    g = gen.Gen(draw, gen.opts(eof=False, bom=False))
    case = _items(g, ["int", "int", "float", "uuid", "vli", "strz", "ts"])
    comp, ctx = case["comp"], case["ctx"]
    if g.chance(2):
        case["comp"] = comp = {"k": "nested", "struct": {"fields": [
            {"k": "int", "name": "m", "size": 1, "signed": False},
            {"k": "bytes", "name": "b", "size": ["ref", "m", "n"]}]}}
        case["items"] = [g.value(comp, {}, ctx) for _ in case["items"]]
    sizes = [len(ref.enc_value(comp, x, {}, ctx)) for x in case["items"]]
    total = sum(sizes)
    case["size"] = g.pick([total] * 4 + [sum(sizes[:-1]), total + 1, max(0, total - 1),
                                         total + g.int(0, 9), 0])
    k = len(sizes)
    case["n"] = g.pick([None, None, None, k, k, k + 1, max(0, k - 1), 0])
    case["form"] = g.pick(["const", "f", "n"])
    case["kinds"] = g.draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=1, max_size=3,
                                    unique=True))
    case["how"] = g.int(0, 3)
    case["tail"] = g.pick([b"\x09", b"", bytes(9), b"\x09" * 40, b"\x80\0" * 20])
    return case


@st.composite
def _ends(draw):
    g = gen.Gen(draw, gen.opts(eof=False, bom=False))
    case = _items(g, ["int", "int", "float", "uuid", "vli", "strz", "ts"])
    return case


_halting = st.builds(
    lambda items, stop, how, limit: {"items": items, "stop": stop, "how": how,
                                     "limit": limit},
    st.lists(st.integers(0, 4), max_size=7), st.integers(0, 5),
    st.sampled_from(["keep", "drop", "limit", "peek"]), st.integers(0, 4))

_skipping = st.builds(
    lambda flags, data: {"flags": flags, "bytes": data},
    st.lists(st.booleans(), max_size=8),
    st.lists(st.integers(0, 255), min_size=8, max_size=8))

SUBS = [
    Sub("counts", _counts(), counts, n=2500),
    Sub("ends", _ends(), ends, n=1000),
    Sub("large", _large(), large, n=300),
    Sub("bounded", _bounded(), bounded, n=1500),
    Sub("halting", _halting, halting, n=1200),
    Sub("skipping", _skipping, skipping, n=300),
]
