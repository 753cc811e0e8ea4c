"""C26: a user's own field classes work like the built-in ones."""
import io
import struct
import sys

import binobj
from binobj import errors, fields
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, eq, eq_bytes, raising, stop_offsets
from ..custom import SIMPLE
from ..runner import Sub
from ..values import ABSENT, check, plain
from . import c01, c02, c04, c05, c06, c07, c08

RULE = (
    "Generated schemas in which some of the simple fields - in structs, arrays and unions,"
    " nullable, constant, conditional, sized by others - are of classes that only define"
    " _do_load and _do_dump (and, some, the hooks for sizes and padding), put through the"
    " same oracles as the built-in classes: an independent encoder and decoder. Recorded"
    " arguments of both methods; values of any length for any declared size; failures"
    " halfway through writing; options declared to be overridable. Non-trivial: an own"
    " class was called, or as in the check that's repeated."
)


def own(prop):
    def run(case):
        out = prop(case)
        return out if any(f["k"] in SIMPLE for f in gen.walk(case["schema"])) else False
    run.__name__ = prop.__name__
    return run


class Ctx(dict):
    pass


def contract(case):
    """What own classes are called with when a struct is dumped and loaded."""
    ctx = Ctx() if case["ctx"] is None else type(case["ctx"])(case["ctx"])
    case = {**case, "ctx": ctx}
    sut = Sut(case)
    values = case["values"]
    want = sut.bytes(values)
    inst = sut.make(values)
    sut.calls.clear()
    eq_bytes(inst.to_bytes(ctx), want, "to_bytes")
    dumped = list(sut.calls)
    fs = {f["name"]: f for f in ref.all_fields(sut.schema)}
    env = ref.effective(sut.schema, values, ctx)
    mine = {n: getattr(sut.cls, n) for n in fs}
    nulls = any((f.get("null") or [0])[0] == "value" for f in gen.walk(sut.schema))
    # Every field that's written once is dumped once
    for n, f in fs.items():
        calls = [c for c in dumped if c[1] is mine[n]]
        if hasattr(mine[n], "spec"):
            due = env[n] is not ABSENT and env[n] is not None
            check(bool(calls) == due or env[n] is None and f["null"][0] == "value", "%s was dumped %d times", n, len(calls))
        for _, _, context, all_fields, data in calls:
            eq(plain(data), f["null"][1] if env[n] is None else env[n],
               "the value %s was given" % n)
            if env[n] is None:
                continue    # That's how the null value's encoding is found.
            check(context is ctx, "%s was given the context %r", n, context)
            for m, v in env.items():
                if v is not ABSENT and m in values:
                    check(m in all_fields, "%s isn't among the fields %s was given", m, n)
                    if fs[m]["k"] in SIMPLE:
                        eq(plain(all_fields[m]), v, "the value of %s" % m)
    for c in dumped:
        check(c[0] == "dump", "%s was called while dumping", c[0])
        check(c[2] is ctx or nulls, "the context %r", c[2])
    sut.calls.clear()
    pre = case["pre"]
    stream = io.BytesIO(pre + want)
    stream.seek(len(pre))
    got = sut.cls.from_stream(stream, ctx)
    eq(plain(got), ref.dec_struct(sut.schema, want, 0, ctx)[0], "from_stream")
    loaded, _ = ref.dec_all(sut.schema, want, 0, ctx)
    spans = stop_offsets(sut.parts(values))
    order = list(fs)
    for c in sut.calls:
        check(c[0] == "load" or nulls, "%s was called while loading", c[0])
        check(c[2] is ctx or c[0] == "dump", "the context %r", c[2])
    for n, f in fs.items():
        calls = [c for c in sut.calls if c[1] is mine[n] and c[0] == "load"]
        if hasattr(mine[n], "spec"):
            null = f.get("null") is not None and f["null"][0] != "value"
            if env[n] is ABSENT:
                check(not calls, "%s was loaded though it's absent", n)
            elif not null:
                check(calls or f.get("null") and loaded[n] is None,
                      "%s was loaded %d times", n, len(calls))
        for _, _, _, known, at in calls:
            check(at == len(pre) + spans[n][0], "%s was read at %d", n, at - len(pre))
            before = order[:order.index(n)]
            eq({m: plain(v) for m, v in known.items()}, {m: loaded[m] for m in before},
               "the fields before %s" % n)
    # The fields by themselves
    parts = dict(sut.parts(values))
    known = sut.builder.kwargs(
        sut.schema, {k: v for k, v in env.items() if v is not ABSENT}, 0, ctx)
    for n, f in fs.items():
        if parts[n] is None:
            continue
        sut.calls.clear()
        arg = sut.builder.arg(f, env[n], 0, env, ctx)
        eq_bytes(mine[n].to_bytes(arg, ctx, known), parts[n], "dumping %s" % n)
        check(all(c[0] == "dump" for c in sut.calls), "%s was loaded", n)
        check(nulls or all(c[2] is ctx for c in sut.calls), "the context when dumping %s", n)
        sut.calls.clear()
        before = {m: sut.builder.arg(fs[m], loaded[m], 1, loaded, ctx)
                  for m in order[:order.index(n)]}
        for load in (lambda: mine[n].from_bytes(parts[n], ctx, True, before),
                     lambda: mine[n].from_stream(io.BytesIO(parts[n]), ctx, before)):
            eq(plain(load()), loaded[n], "loading %s" % n)
        check(nulls or all(c[2] is ctx for c in sut.calls), "the context when loading %s", n)
    return any(hasattr(m, "spec") for m in mine.values())


# --- sizes ----------------------------------------------------------------------


def classes(log):
    class Raw(fields.Field):
        """Writes whatever it's given, in pieces."""

        def _do_load(self, stream, context, loaded_fields):
            log.append(("load", context, dict(loaded_fields)))
            return stream.read(self.get_expected_size(loaded_fields))

        def _do_dump(self, stream, data, context, all_fields):
            log.append(("dump", data, context, all_fields))
            for i in range(0, len(data), 2):
                stream.write(data[i:i + 2])

    class Pad(Raw):
        def _add_padding(self, serialized, to_size):
            log.append(("pad", serialized, to_size))
            return serialized.ljust(to_size, b"~")

    class Known(Pad):
        def _size_for_value(self, value):
            return len(value)

    return {"raw": Raw, "pad": Pad, "known": Known}


def sizes(case):
    """Too much is refused, too little is padded or refused, with any kind of size."""
    log = []
    cls = classes(log)[case["cls"]]
    data, size, by = case["data"], case["size"], case["by"]
    pads = case["cls"] != "raw"

    ns = {"n": fields.UInt16()}
    ns["v"] = cls(size={"int": size, "name": "n", "field": ns["n"], "none": None}[by])
    ns["e"] = fields.UInt8(default=0xEE)
    S = type("S", (binobj.Struct,), ns)
    inst = S(n=size, v=data)
    head = size.to_bytes(2, sys.byteorder)
    fld = S.v
    every = {"n": size}
    if by == "none":
        want = data
    elif len(data) > size or len(data) < size and not pads:
        want = None
    else:
        want = data.ljust(size, b"~")
    for what, write in (("the struct", inst.to_stream),
                        ("the field", lambda s: fld.to_stream(s, data, None, every)),
                        ("a part", lambda s: inst.partial_dump(s, "v"))):
        s = io.BytesIO()
        log.clear()
        if want is None:
            with raising(errors.ValueSizeError, "dumping %s", what):
                write(s)
            check(s.getvalue() in (b"", head), "%s: %r was written", what, s.getvalue())
            continue
        write(s)
        full = {"the struct": head + want + b"\xee", "the field": want,
                "a part": head + want}[what]
        eq_bytes(s.getvalue(), full, "dumping " + what)
        check([c[0] for c in log] == ["dump"] + ["pad"] * (by != "none" and len(data) < size),
              "%s: the calls %r", what, [c[0] for c in log])
        for c in log:
            if c[0] == "pad":
                check(c[1:] == (data, size), "padding was asked for with %r", c[1:])
    if want is not None and by != "none":
        got = S.from_bytes(head + want + b"\xee")
        eq(plain(got), {"n": size, "v": want, "e": 0xEE}, "loading")
        check(fld.get_expected_size(every) == size, "the expected size")
        eq(S.partial_load(io.BytesIO(head + want)).v, want, "a partial load")
        stream = io.BytesIO(head + want + b"\xee")
        eq(S.get_field(stream, "v"), want, "get_field()")
    # What's known of the size
    check(fld.has_fixed_size == (by == "int"), "has_fixed_size is %r", fld.has_fixed_size)
    check(S.get_size() == (3 + size if by == "int" else None), "get_size() is %r",
          S.get_size())
    check(S.e.offset == (2 + size if by == "int" else None), "the offset is %r", S.e.offset)
    if by == "none":
        if case["cls"] == "known":
            check(fld.get_expected_size({"v": data}) == len(data), "the expected size")
        else:
            with raising(errors.UndefinedSizeError, "the size"):
                fld.get_expected_size({"v": data})
        with raising(errors.UndefinedSizeError, "the size without a value"):
            fld.get_expected_size({})
    elif by != "int":
        with raising(errors.MissingRequiredValueError, "the size without the other field"):
            fld.get_expected_size({"v": data})
        for bad in ("3", 2.0, None, b"1"):
            with raising(TypeError, "a size of %r" % (bad,)):
                fld.get_expected_size({"n": bad})
            with raising(TypeError, "a size of %r" % (bad,)):
                fld.to_bytes(data, all_fields={"n": bad})
    if want is not None:
        check(len(inst) == 3 + len(want), "len() is %d", len(inst))
    # A constant
    k = cls(const=data)
    check(k.size == (len(data) if case["cls"] == "known" else None), "the constant's size")
    K = type("K", (binobj.Struct,), {"k": k, "e": fields.UInt8(default=1)})
    eq_bytes(K().to_bytes(), data + b"\1", "a constant")
    if case["cls"] == "known":
        check(K.get_size() == len(data) + 1 and K.e.offset == len(data), "sizes")
        eq(K.from_bytes(data + b"\2").e, 2, "loading a constant")
        if data:
            with raising(errors.ValidationError, "another constant"):
                K.from_bytes(bytes([data[0] ^ 1]) + data[1:] + b"\2")
    return len(data) != size


def nulls(case):
    """A null value that's a value is dumped like that value is: padded, or refused."""
    base = classes([])[case["cls"]]

    class Listed(base):
        """Values are lists of numbers."""

        def _do_load(self, stream, context, loaded_fields):
            return list(super()._do_load(stream, context, loaded_fields))

        def _do_dump(self, stream, data, context, all_fields):
            super()._do_dump(stream, bytes(data), context, all_fields)

    data, size, by, other = case["data"], case["size"], case["by"], case["other"]
    ns = {"n": fields.UInt16(endian="big")}
    ns["v"] = Listed(size={"int": size, "name": "n", "field": ns["n"], "none": None}[by],
                     null_value=list(data))
    ns["e"] = fields.UInt8(default=0xEE)
    S = type("S", (binobj.Struct,), ns)
    head = size.to_bytes(2, "big")
    pads = case["cls"] != "raw"

    def encoded(b):
        if by == "none":
            return b
        if len(b) > size or len(b) < size and not pads:
            return None
        return b.ljust(size, b"~")

    null = encoded(data)
    for v, want in ((None, null), (list(other), encoded(other))):
        inst = S(n=size, v=v)
        for what, dump, full in (
                ("the struct", inst.to_bytes, lambda: head + want + b"\xee"),
                ("the field", lambda: S.v.to_bytes(v, None, {"n": size}), lambda: want)):
            if want is None:
                with raising(errors.ValueSizeError, "dumping %r in %s", v, what):
                    dump()
            else:
                eq_bytes(dump(), full(), "dumping %r in %s" % (v, what))
        if want is None:
            continue
        if v is None or by != "none":
            check(len(inst) == 3 + len(want), "len() with %r is %d", v, len(inst))
        if by != "none" or v is None:
            loaded = None if want.startswith(null or b"?" * 99) or list(want) == list(
                data) else list(want)
            stream = io.BytesIO(b"?" + head + want + b"\xee")
            stream.seek(1)
            eq(plain(S.from_stream(stream)), {"n": size, "v": loaded, "e": 0xEE}, "loading")
            check(stream.tell() == 4 + len(want), "at %d", stream.tell())
    return len(data) != size


# --- failures -------------------------------------------------------------------


class Boom(Exception):
    pass


EXCEPTIONS = [
    KeyError("k"), ValueError("v"), EOFError("e"), TypeError("t"), IndexError("i"),
    AttributeError("a"), OSError("o"), StopIteration("s"), OverflowError("f"),
    UnicodeDecodeError("utf-8", b"x", 0, 1, "u"), struct.error("x"), RuntimeError("r"),
    NotImplementedError("n"), AssertionError("q"), MemoryError(),
    errors.UndefinedSizeError(field="u"), errors.ValidationError("v", field="v", value=1),
    errors.UnexpectedValueError(struct="x", name="y"),
]


def failing(case):
    """An exception in an own class comes out as it is, and nothing half is written."""
    boom = [None]

    class F(fields.Field):
        def _do_load(self, stream, context, loaded_fields):
            out = stream.read(case["upto"])
            if boom[0]:
                raise boom[0]
            return out

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(data[:case["upto"]])
            if boom[0]:
                raise boom[0]
            stream.write(data[case["upto"]:])

        def _size_for_value(self, value):
            if boom[0]:
                raise boom[0]
            return len(value)

    data = case["data"]
    fld = F()
    where = case["where"]
    if where == "plain":
        ns, v, want = {"v": fld}, data, data
    elif where == "array":
        ns, v, want = {"v": fields.Array(fld, count=2)}, [data, data], data + data
    elif where == "union":
        ns = {"v": fields.Union(fld, fields.UInt8(), load_decider=lambda s, c, *_: c[0],
                                dump_decider=lambda d, c, *_: c[0])}
        v, want = data, data
    else:
        inner = type("I", (binobj.Struct,), {"v": fld})
        ns, v, want = {"v": fields.Nested(inner)}, {"v": data}, data
    S = type("S", (binobj.Struct,), {"a": fields.UInt8(), **ns, "z": fields.UInt8()})
    inst = S(a=1, v=v, z=2)
    for exc in (Boom("x"), errors.UnserializableValueError(field=fld, value=1),
                errors.DeserializationError("d"), *(EXCEPTIONS[i] for i in case["excs"])):
        before = plain(inst)
        boom[0] = exc
        s = io.BytesIO()
        for write in (lambda: inst.to_stream(s), lambda: S.v.to_stream(s, v),
                      inst.to_bytes, lambda: inst.partial_dump(s, "v"),
                      lambda: S.v.to_bytes(v)):
            s.seek(0)
            s.truncate()
            try:
                write()
            except Exception as e:
                check(e is exc, "%r came out as %r", exc, e)
            else:
                check(False, "%r was swallowed", exc)
            check(s.getvalue() in (b"", b"\1"), "%r was written", s.getvalue())
        if not isinstance(exc, errors.UnserializableValueError):
            for read in (lambda: S.from_bytes(b"\1" + want + b"\2"),
                         lambda: S.v.from_bytes(want),
                         lambda: S.get_field(io.BytesIO(b"\1" + want + b"\2"), "v")):
                try:
                    read()
                except Exception as e:
                    check(e is exc, "%r came out as %r", exc, e)
                else:
                    check(False, "%r was swallowed", exc)
        boom[0] = None
        eq(plain(inst), before, "the struct afterwards")
        eq_bytes(inst.to_bytes(), b"\1" + want + b"\2", "dumping it afterwards")
        if where != "array" and case["upto"] == len(data):
            eq(plain(S.from_bytes(b"\1" + want + b"\2")), before, "loading it afterwards")
    return len(data) > 1


# --- options --------------------------------------------------------------------


def options(case):
    """Options that an own class declares to be overridable have struct-level defaults."""
    class Base(fields.Field):
        __overrideable_attributes__ = ("key", "step")

        def __init__(self, *, key=0, step=1, **kw):
            super().__init__(**kw)
            self.key = key
            self.step = step

        def _do_load(self, stream, context, loaded_fields):
            return stream.read(1)[0] ^ self.key

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(bytes([data ^ self.key]) * self.step)

    class Kid(Base):
        pass

    class Other(Base):
        __overrideable_attributes__ = ()

    kinds = {"Base": Base, "Kid": Kid, "Other": Other}
    defaults = case["defaults"]
    ns, want, n = {}, b"", 0
    for i, (kind, given) in enumerate(case["fields"]):
        name = "f%d" % i
        ns[name] = kinds[kind](**given)
        eff = {"key": 0, "step": 1, **given}
        for opt in eff:
            if opt not in given and opt in kinds[kind].__overrideable_attributes__:
                for key in (opt, kind + "__" + opt):
                    if key in defaults:
                        eff[opt] = defaults[key]
                        n += 1
        want += bytes([i ^ eff["key"]]) * eff["step"]
    if case["meta"]:
        ns["Meta"] = type("Meta", (), {"argument_defaults": dict(defaults)})
        S = type("S", (binobj.Struct,), ns)
    else:
        P = type("P", (binobj.Struct,), {
            "p": fields.UInt8(default=0),
            "Meta": type("Meta", (), {"argument_defaults": dict(defaults)})})
        S = type("S", (P,), ns)
        want = b"\0" + want
    eq_bytes(S(**{"f%d" % i: i for i in range(len(case["fields"]))}).to_bytes(), want,
             "with the defaults %r" % defaults)
    return n > 0


# --- cases ----------------------------------------------------------------------


def _mask(g, case):
    return {"custom": g.int(1, 127)}


def _mask_and(more):
    def extra(g, case):
        return {**_mask(g, case), **more(g, case)}
    return extra


def _custom(o=None, n=1, more=None):
    return gen.cases(o, n, _mask_and(more) if more else _mask)


@st.composite
def _sizes(draw):
    size = draw(st.integers(0, 6))
    data = draw(st.one_of(st.binary(max_size=8), st.binary(min_size=size, max_size=size)))
    return {"cls": draw(st.sampled_from(["raw", "pad", "known"])), "data": data,
            "size": size, "by": draw(st.sampled_from(["int", "name", "field", "none"]))}


@st.composite
def _nulls(draw):
    case = draw(_sizes())
    if not case["data"]:
        case["data"] = b"\1"
    case["other"] = draw(st.one_of(st.binary(max_size=6), st.just(case["data"][:-1])))
    return case


@st.composite
def _failing(draw):
    data = draw(st.binary(min_size=1, max_size=5))
    return {"data": data, "upto": draw(st.integers(0, len(data))),
            "where": draw(st.sampled_from(["plain", "array", "union", "nested"])),
            "excs": draw(st.lists(st.integers(0, len(EXCEPTIONS) - 1), min_size=2,
                                  max_size=5, unique=True))}


@st.composite
def _options(draw):
    keys = [p + o for p in ("", "Base__", "Kid__", "Other__") for o in ("key", "step")]
    defaults = {}
    for k in keys:
        if draw(st.integers(0, 2)) == 0:
            defaults[k] = draw(st.integers(0, 9)) if k.endswith("key") else draw(
                st.integers(0, 3))
    fs = []
    for _ in range(draw(st.integers(1, 4))):
        given = {}
        if draw(st.integers(0, 3)) == 0:
            given["key"] = draw(st.integers(0, 9))
        if draw(st.integers(0, 3)) == 0:
            given["step"] = draw(st.integers(0, 3))
        fs.append((draw(st.sampled_from(["Base", "Kid", "Other"])), given))
    return {"defaults": defaults, "fields": fs, "meta": draw(st.booleans())}


NO_EOF = gen.opts(eof=False)
SUBS = [
    Sub("layout", _custom(), own(c01.layout), n=800),
    Sub("fieldwise", _custom(), own(c01.fieldwise), n=400),
    Sub("roundtrip", _custom(), own(c02.roundtrip), n=800),
    Sub("truncated", _custom(NO_EOF, more=c04._junk), own(c04.truncated), n=300),
    Sub("leftover", _custom(NO_EOF, more=c04._junk), own(c04.leftover), n=200),
    Sub("size", _custom(NO_EOF, 2), own(c05.sizes), n=500),
    Sub("reading", _custom(more=c06._junk), own(c06.reading), n=400),
    Sub("partial", _custom(more=c07._junk), own(c07.named), n=300),
    Sub("incomplete", _custom(more=c08._drop), own(c08.incomplete), n=400),
    Sub("contract", _custom(more=lambda g, c: {"pre": g.draw(st.binary(max_size=3))}),
        contract, n=1500),
    Sub("sizes", _sizes(), sizes, n=800),
    Sub("nulls", _nulls(), nulls, n=1000),
    Sub("failing", _failing(), failing, n=400),
    Sub("options", _options(), options, n=600),
]
