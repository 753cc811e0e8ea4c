"""C15: conditional fields are present exactly when their condition says so."""
import io

import binobj
from binobj import errors, fields
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import Sut, dump_stream, eq, eq_bytes, raising, stop_offsets
from ..runner import Sub
from ..values import ABSENT, Falsy, Violation, check, plain

RULE = (
    "Generated schemas rich in conditional fields (on flags, numbers, the context,"
    " combinations of them; at the start, in the middle, nested, in unions and inherited),"
    " values for flags that turn them on and off again on the same struct, context objects"
    " that only identity tells apart, and conditions that look at the stream. Oracle: an"
    " independent encoder and decoder; recorded arguments of every callable. Non-trivial:"
    " at least one conditional field and a non-empty serialization."
)

OPTS = gen.opts(cond=True, npv=True, null=False, const=False, factory=False, computed=False,
                ts=False, float=False, more=("cond",))


class Ctx(dict):
    """A context that's equal to others but not the same."""

    def __copy__(self):
        raise Violation("the context was copied")

    def __deepcopy__(self, memo):
        raise Violation("the context was copied")


class FalsyCtx(Ctx, Falsy):
    pass


class Log(spec.Log):
    def __init__(self):
        super().__init__()
        self.on = None

    def add(self, what, *args):
        if what == "present":
            name, ctx, stream = args
        elif what == "halt":
            name, (ctx, stream) = None, args[:2]
        else:
            name, ctx = None, args[2]
            stream = args[0] if what == "load" else None
        pos = stream.tell() if stream is not None else None
        self.calls.append((what, name, ctx, stream, pos))


def contexts(log, ctx, what):
    """Every callable got the caller's own context, if any."""
    for kind, name, got, _stream, _pos in log.calls:
        check(got is None or got is ctx, "%s: the %s callable of %r got the context %r (%s)",
              what, kind, name, got, "another object" if got == ctx else "not equal")
    n = len(log.calls)
    log.calls.clear()
    return n


def conditional(s):
    return any(f.get("present") for f in gen.walk(s))


def used(s, values, ctx):
    """Is the outcome of any callable needed?"""
    return any(f.get("present") for f in ref.all_fields(s))


def both(case):
    """Dumps and loads with a context, and what the callables see."""
    log = Log()
    sut = Sut(case, log)
    values = case["values"]
    ctx = None if sut.ctx is None else FalsyCtx(sut.ctx) if isinstance(
        sut.ctx, Falsy) else Ctx(sut.ctx)
    parts = sut.parts(values)
    want = b"".join(b or b"" for _, b in parts)
    inst = sut.make(values)
    contexts(log, ctx, "creating")

    eq_bytes(inst.to_bytes(ctx), want, "to_bytes")
    contexts(log, ctx, "to_bytes")
    eq_bytes(dump_stream(lambda s: inst.to_stream(s, ctx)), want, "to_stream")
    contexts(log, ctx, "to_stream")
    last = sut.names()[-1]
    eq_bytes(dump_stream(lambda s: inst.partial_dump(s, last, ctx)), want, "partial_dump")
    contexts(log, ctx, "partial_dump")

    stops = []
    env, _ = ref.dec_all(sut.schema, want, 0, ctx, stops)
    kept = ref.kept(sut.schema, env)
    before, after = case["junk"]
    if gen.reads_to_eof(sut.schema):
        after = b""
    stream = io.BytesIO(before + want + after)
    stream.seek(len(before))
    got = sut.cls.from_stream(stream, ctx)
    eq(plain(got), kept, "from_stream")
    check(stream.tell() == len(before) + len(want), "at %s", stream.tell())
    starts = {}
    pos = len(before)
    for name, stop in stops:
        starts[name] = pos
        pos = len(before) + stop
    nested = any(f["k"] in ("nested", "array", "union") for f in ref.all_fields(sut.schema))
    if not nested:
        for kind, name, _c, s, at in log.calls:
            if kind == "present" and s is not None:
                check(s is stream, "the condition of %r got another stream", name)
                check(at == starts[name], "the condition of %r was asked at %s, not %s",
                      name, at, starts[name])
    contexts(log, ctx, "from_stream")
    eq(plain(sut.cls.from_bytes(want, ctx)), kept, "from_bytes")
    contexts(log, ctx, "from_bytes")
    stream.seek(len(before))
    eq(plain(sut.cls.partial_load(stream, last, ctx)), kept, "partial_load")
    contexts(log, ctx, "partial_load")
    for f in ref.all_fields(sut.schema):
        if f.get("present"):
            stream.seek(len(before))
            eq(plain(sut.cls.get_field(stream, f["name"], ctx)), env[f["name"]],
               "get_field(%r)" % f["name"])
            contexts(log, ctx, "get_field")
            npv = f.get("npv")
            if not ref.holds(f["present"], env, ctx) and not f.get("discard"):
                if npv is None:
                    check(got[f["name"]] is fields.NOT_PRESENT, "absent %r is %r",
                          f["name"], got[f["name"]])
    return conditional(sut.schema) and len(want) > 0


def toggle(case):
    """The same struct with its flags changed again and again."""
    sut = Sut(case)
    ctx = sut.ctx
    first, *others = case["values"]
    inst = sut.make(first)
    values = dict(first)
    eq_bytes(inst.to_bytes(ctx), sut.bytes(values), "first")
    # Those that pick a union's choice can't be changed without its value.
    pick = {u["by"][1] for u in gen.walk(sut.schema) if u["k"] == "union"}
    flags = [f["name"] for f in ref.all_fields(sut.schema)
             if gen.any_flag(ref.all_fields(sut.schema), f["name"])
             and f["name"] not in pick]
    labels = set()
    for new in others:
        for name in flags:
            if name in new:
                inst[name] = values[name] = new[name]
        try:
            want = sut.bytes(values)
        except ref.RefMissing:
            with raising(errors.MissingRequiredValueError, "flags %r" % new):
                inst.to_bytes(ctx)
            labels.add("missing")
            continue
        except ref.RefInvalid:
            continue
        eq_bytes(inst.to_bytes(ctx), want, "after changing the flags to %r" % (
            {n: values.get(n) for n in flags},))
        labels.add("dumped")
        if not gen.uses_ctx(sut.schema):
            check(len(inst) == len(want), "len() is %d, not %d", len(inst), len(want))
    return labels if flags else False


class Garbage:
    """Nothing that any field can dump."""

    def __eq__(self, other):
        return self is other

    __hash__ = None


def ignored(case):
    """What an absent field was set to makes no difference."""
    sut = Sut(case)
    ctx, values = sut.ctx, case["values"]
    want = sut.bytes(values)
    env = ref.effective(sut.schema, values, ctx)
    absent = [f["name"] for f in ref.all_fields(sut.schema)
              if f.get("present") and not ref.holds(f["present"], env, ctx)]
    flags = ref.all_fields(sut.schema)
    absent = [n for n in absent if not gen.any_flag(flags, n)]
    if not absent:
        return False
    kw = sut.builder.kwargs(sut.schema, values, case["how"], ctx)
    for name in absent:
        for junk in (Garbage(), None, 1 << 200, "\u20ac" * 50, fields.NOT_PRESENT, [], -1):
            kw[name] = junk
            eq_bytes(sut.cls(**kw).to_bytes(ctx), want, "%r set to %r" % (name, junk))
        kw.pop(name)
    for f in flags:
        # A default is as good as a value that's been set.
        if f["name"] in absent:
            kw.pop(f["name"], None)
    inst = sut.cls(**kw)
    eq_bytes(inst.to_bytes(ctx), want, "nothing set for absent fields")
    if not gen.uses_ctx(sut.schema):
        check(len(inst) == len(want), "len() is %d, not %d", len(inst), len(want))
        for name in absent:
            check(inst.to_dict(keep_discardable=True).get(name, fields.NOT_PRESENT)
                  is fields.NOT_PRESENT, "to_dict() gives a value for the absent %r", name)
    return True


# --- conditions that look at the stream ------------------------------------------


def peeker(tag):
    def present(values, ctx, stream):
        if stream is None:
            name = "t%d" % tag
            return name in values and values[name] is not fields.NOT_PRESENT
        here = stream.tell()
        b = stream.read(1)
        stream.seek(here)
        return b == bytes([tag])
    return present


def peeking(case):
    """Optional records told apart by their first byte."""
    ns = {"head": fields.UInt8()}
    for tag, size in enumerate(case["sizes"]):
        ns["t%d" % tag] = fields.Bytes(size=size, present=peeker(tag))
    ns["tail"] = fields.UInt16(endian="big")
    cls = type("Peek", (binobj.Struct,), ns)
    body = case["data"]
    pos, want = 1, {"head": body[0]}
    eof = False
    for tag, size in enumerate(case["sizes"]):
        if body[pos:pos + 1] == bytes([tag]):
            if pos + size > len(body):
                eof = True
                break
            want["t%d" % tag] = body[pos:pos + size]
            pos += size
        else:
            want["t%d" % tag] = ABSENT
    if eof or pos + 2 > len(body):
        with raising(errors.UnexpectedEOFError, "loading %r" % body):
            cls.from_stream(io.BytesIO(body))
        return True
    want["tail"] = body[pos] << 8 | body[pos + 1]
    stream = io.BytesIO(b"\0\1" + body)
    stream.seek(2)
    got = cls.from_stream(stream)
    eq(plain(got), want, "loading %r" % body)
    check(stream.tell() == 2 + pos + 2, "at %s", stream.tell())
    eq_bytes(got.to_bytes(), body[:pos + 2], "dumping it again")
    check(len(got) == pos + 2, "len() is %d", len(got))
    for name in want:
        stream.seek(2)
        eq(plain(cls.get_field(stream, name)), want[name], "get_field(%r)" % name)
    return pos > 1


def _junk(g, case):
    return {"junk": [g.draw(st.binary(max_size=3)), g.draw(st.binary(max_size=3))]}


@st.composite
def _peek(draw):
    sizes = draw(st.lists(st.integers(1, 3), min_size=1, max_size=4))
    n = len(sizes)
    data = bytes([draw(st.integers(0, 255))])
    for tag in range(n):
        if draw(st.booleans()):
            data += bytes([tag]) + draw(st.binary(min_size=sizes[tag] - 1,
                                                  max_size=sizes[tag] - 1))
    data += draw(st.one_of(st.just(b"\xaa\xbb"), st.just(b"\xaa\xbb"),
                           st.lists(st.integers(0, 5), max_size=4).map(bytes)))
    return {"sizes": sizes, "data": data}


SUBS = [
    Sub("both", gen.cases(OPTS, 1, _junk), both, n=3000),
    Sub("toggle", gen.cases(OPTS, 4), toggle, n=2000),
    Sub("ignored", gen.cases(OPTS), ignored, n=2500),
    Sub("peeking", _peek(), peeking, n=1500),
]
