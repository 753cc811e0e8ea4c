"""C27: errors name the field, value or position that is to blame."""
import io

import binobj
from binobj import errors, fields
from binobj.structures import MutableStructMappingProxy
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, eq, raising
from ..runner import Sub
from ..values import ABSENT, check, plain, same
from . import c25

RULE = (
    "Generated schemas with malformed or cut data, loaded whole, partially and by field;"
    " with one value missing, wrong or of the wrong length; with unknown names, immutable"
    " fields, leftovers; and misconfigured declarations. The attributes of the errors that"
    " are raised are compared with what's to blame according to an independent decoder or"
    " to how the case was made. Non-trivial: an error was raised."
)


def caught(fn):
    """The exception raised by a function."""
    try:
        fn()
    except Exception as e:
        return e
    return None


def loading(case):
    sut = Sut(case)
    ctx, cls, data, schema = sut.ctx, sut.cls, case["data"], sut.schema
    if c25.huge(schema, data, ctx):
        return False
    verdict, env, stops = c25.decode(schema, data, ctx)
    names = sut.names()
    if verdict == "ok":
        end = stops[-1][1] if stops else 0
        for tail in {data[end:], data[end:] + b"\1"} - {b""}:
            if gen.reads_to_eof(schema):
                continue
            e = caught(lambda: cls.from_bytes(data[:end] + tail, ctx))
            check(isinstance(e, errors.ExtraneousDataError), "leftovers: %r", e)
            check(e.offset == end, "leftovers at %d, not %r", end, e.offset)
        return False
    name = names[len(stops)]
    f = ref.all_fields(schema)[len(stops)]
    field = getattr(cls, name)
    before = b"?" * case["pick"]
    ways = {
        "from_bytes": lambda: cls.from_bytes(data, ctx),
        "from_stream": lambda: cls.from_stream(at(before + data, len(before)), ctx),
        "get_field": lambda: cls.get_field(at(before + data, len(before)), name, ctx),
        "partial_load": lambda: cls.partial_load(io.BytesIO(data), name, ctx),
        "the last field": lambda: cls.partial_load(io.BytesIO(data), names[-1], ctx),
    }
    if verdict == "invalid":
        ways["a partial load"] = lambda: cls.partial_load(io.BytesIO(data), None, ctx)
    n = 0
    for what, way in ways.items():
        e = caught(way)
        check(e is not None, "%s: nothing was raised", what)
        if isinstance(e, errors.DeserializationError):
            check(e.field is field, "%s: %r for %s, but it blames %r", what, e, name, e.field)
            n += 1
            if isinstance(e, errors.UnexpectedEOFError):
                check(isinstance(e.size, int) and e.size > 0, "%s: the size %r", what, e.size)
                if f["k"] in ("int", "float", "ts", "bytes", "str"):
                    # All at once
                    pos = stops[-1][1] if stops else 0
                    if what in ("from_stream", "get_field"):
                        pos += len(before)
                    check(e.offset == pos, "%s: %s starts at %d, not %r", what, name, pos,
                          e.offset)
                    size = ref.size_of(f, env)
                    check(e.size == size, "%s: %d bytes of %s are needed, not %r", what, size,
                          name, e.size)
        elif isinstance(e, errors.ValidationError):
            n += 1
            check(isinstance(e.field, fields.Field) and e.field.const is not fields.UNDEFINED
                  and e.field.const != e.value, "%s: %r blames %r for %r", what, e, e.field,
                  e.value)
            if f.get("const") is not None:
                check(e.field is field, "%s: %r for %s blames %r", what, e, name, e.field)
                pos = stops[-1][1] if stops else 0
                v, _ = ref._dec(f, data, pos, env, ctx)
                eq(plain(e.value), v, what + ": the value")
    return n > 0


def at(data, pos):
    s = io.BytesIO(data)
    s.seek(pos)
    return s


def blames(e, field):
    """Either the field or its name."""
    return e.field is field or e.field == field.name


def missing(case):
    """A required value isn't there."""
    sut = Sut(case)
    ctx, values = sut.ctx, case["values"]
    name = case["name"]
    try:
        ref.effective(sut.schema, {k: v for k, v in values.items() if k != name}, ctx)
    except ref.RefMissing:
        pass
    except Exception:
        return False    # Others depend on it.
    else:
        return False
    field = getattr(sut.cls, name)
    inst = sut.make({k: v for k, v in values.items() if k != name})
    whole = sut.make(values)
    if case["how"] % 2:
        inst = whole
        del inst[name]
    ways = {
        "to_bytes": lambda: inst.to_bytes(ctx),
        "to_stream": lambda: inst.to_stream(io.BytesIO(), ctx),
        "partial_dump": lambda: inst.partial_dump(io.BytesIO(), name, ctx),
        "the field": lambda: field.to_bytes(context=ctx, all_fields=dict(
            sut.builder.kwargs(sut.schema, {k: v for k, v in values.items() if k != name},
                               0, ctx))),
        "to_dict": lambda: inst.to_dict(True, ctx),
        "the attribute": lambda: getattr(inst, name),
        "the item": lambda: inst[name],
    }
    if gen.uses_ctx(sut.schema):
        del ways["the attribute"], ways["the item"]
    dependent = any(case_ref(f, name) for f in ref.all_fields(sut.schema))
    for what, way in ways.items():
        e = caught(way)
        if dependent and not isinstance(e, errors.MissingRequiredValueError):
            continue
        check(isinstance(e, errors.MissingRequiredValueError), "%s without %s: %r", what,
              name, e)
        check(blames(e, field), "%s without %s blames %r", what, name, e.field)
    return True


def case_ref(f, name):
    """Does anything of the field's declaration refer to a name?"""
    return any(repr(name) in repr(f.get(k)) for k in (
        "size", "count", "present", "computed", "by", "comp", "choices"))


def wrong(case):
    """One value can't be dumped."""
    sut = Sut(case)
    ctx, values, name, v = sut.ctx, case["values"], case["name"], case["wrong"]
    if name is None:
        return False
    f = {f["name"]: f for f in ref.all_fields(sut.schema)}[name]
    field = getattr(sut.cls, name)
    inst = sut.make(values)
    inst[name] = sut.builder.arg(f, v) if f["k"] == "array" else v
    every = {k: x for k, x in sut.builder.kwargs(sut.schema, {
        k: x for k, x in ref.effective(sut.schema, values, ctx).items()
        if x is not ABSENT}, 0, ctx).items()}
    every[name] = inst[name]
    ways = {
        "to_bytes": lambda: inst.to_bytes(ctx),
        "to_stream": lambda: inst.to_stream(io.BytesIO(), ctx),
        "partial_dump": lambda: inst.partial_dump(io.BytesIO(), name, ctx),
        "the field": lambda: field.to_bytes(inst[name], ctx, every),
    }
    for what, way in ways.items():
        e = caught(way)
        check(isinstance(e, errors.SerializationError), "%s with %s=%r: %r", what, name, v, e)
        check(e.field is field, "%s with %s=%r blames %r", what, name, v, e.field)
        if f["k"] == "array" and v is not None:
            check(isinstance(e, errors.ArraySizeError), "%s: %r", what, e)
            n = ref.array_count(f, ref.effective(sut.schema, values, ctx))
            check(e.n_expected == n, "%s: %r elements expected, not %r", what, n, e.n_expected)
            check(e.n_given == len(v), "%s: %r elements given, not %r", what, len(v),
                  e.n_given)
        else:
            check(isinstance(e, errors.UnserializableValueError), "%s: %r", what, e)
            if f["k"] in ("int", "vli", "bytes") or v is None:
                check(same(e.value, v), "%s: the value %r, not %r", what, v, e.value)
    if f["k"] == "array" and v is not None:
        # As an iterable without a length
        for what, way in ways.items():
            inst[name] = every[name] = iter(sut.builder.arg(f, v))
            e = caught(way)
            check(isinstance(e, errors.ArraySizeError), "%s from an iterator: %r", what, e)
            check(e.field is field, "%s from an iterator blames %r", what, e.field)
            check((e.n_expected, e.n_given) == (n, len(v)), "%s from an iterator: %r of %r,"
                  " not %r of %r", what, len(v), n, e.n_given, e.n_expected)
    return True


def names(case):
    """Unknown names, immutable fields."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    kw = sut.builder.kwargs(sut.schema, values, 0, ctx)
    unknown = set(case["unknown"]) - set(sut.names())
    if unknown:
        e = caught(lambda: sut.cls(**kw, **{n: 1 for n in unknown}))
        check(isinstance(e, errors.UnexpectedValueError), "unknown names: %r", e)
        check(set(e.names) == unknown, "unknown names: %r, not %r", unknown, e.names)
        check(isinstance(e.struct, sut.cls), "unknown names: the struct %r", e.struct)
    inst = sut.make(values)
    n = len(unknown)
    for f in ref.all_fields(sut.schema):
        if f.get("const") is None and f.get("computed") is None:
            continue
        n += 1
        field = getattr(sut.cls, f["name"])
        for v in (f["const"][0] if f.get("const") else 0, None, "x"):
            for what, way in (
                ("attribute", lambda: setattr(inst, f["name"], v)),
                ("item", lambda: inst.__setitem__(f["name"], v)),
                ("proxy", lambda: MutableStructMappingProxy(inst).update({f["name"]: v})),
            ):
                e = caught(way)
                check(isinstance(e, errors.ImmutableFieldError), "%s: %r", what, e)
                check(e.field is field, "%s: %r, not %r", what, field, e.field)
    return n > 0


def declarations(case):
    """Misconfigured structs and fields."""
    at_, names_ = case["at"], ["f%d" % i for i in range(case["n"])]
    bad = names_[at_ % len(names_)]

    def parent(**extra):
        return type("Parent", (binobj.Struct,), {
            **{n: fields.UInt8() for n in names_}, **extra})

    P = parent()
    chain = P
    for i in range(case["depth"]):
        chain = type("Mid%d" % i, (chain,), {"m%d" % i: fields.UInt8()})
    again = fields.UInt16()
    e = caught(lambda: type("Child", (chain,), {"x": fields.UInt8(), bad: again}))
    check(isinstance(e, errors.FieldRedefinedError), "redefined: %r", e)
    check(e.struct == "Child", "redefined in %r", e.struct)
    check(e.field is again or e.field == bad, "redefined: %r", e.field)
    Q = type("Q", (binobj.Struct,), {"q": fields.UInt8()})
    e = caught(lambda: type("Two", (chain, Q), {}))
    check(isinstance(e, errors.MultipleInheritanceError) and e.struct == "Two",
          "two parents: %r", e)
    # A field without a size
    S = type("S", (binobj.Struct,), {
        **{n: fields.UInt8(default=1) for n in names_[:at_ % len(names_)]},
        "v": fields.Bytes(), "z": fields.UInt8(default=0)})
    data = bytes(at_ % len(names_)) + b"abc"
    for what, way in (("loading", lambda: S.from_bytes(data)),
                      ("the field", lambda: S.v.from_bytes(b"abc")),
                      ("the size", lambda: S.v.get_expected_size({}))):
        e = caught(way)
        check(isinstance(e, errors.UndefinedSizeError), "%s: %r", what, e)
        check(blames(e, S.v), "%s blames %r", what, e.field)
    # A size that depends on a field that isn't there
    T = type("T", (binobj.Struct,), {"n": fields.UInt8(), "v": fields.Bytes(size="n")})
    for what, way in (("the size", lambda: T.v.get_expected_size({"v": b"x"})),
                      ("loading", lambda: T.v.from_bytes(b"abc")),
                      ("dumping", lambda: T.v.to_bytes(b"abc"))):
        e = caught(way)
        check(isinstance(e, errors.MissingRequiredValueError), "%s: %r", what, e)
        check(blames(e, T.n), "%s blames %r", what, e.field)
    U = type("U", (binobj.Struct,), {
        "n": fields.UInt8(), "v": fields.Array(fields.UInt8(), count="n")})
    for what, way in (("loading", lambda: U.v.from_bytes(b"abc")),
                      ("dumping", lambda: U.v.to_bytes([1, 2]))):
        e = caught(way)
        check(isinstance(e, errors.FieldReferenceError) and e.field == "n", "%s: %r", what, e)
    # Twice computed
    twice = fields.UInt8()
    twice.computes(lambda *_: 1)
    e = caught(lambda: twice.computes(lambda *_: 2))
    check(isinstance(e, errors.ConfigurationError) and e.field is twice, "computed: %r", e)
    const = fields.UInt8(const=1)
    e = caught(lambda: const.computes(lambda *_: 2))
    check(isinstance(e, errors.ConfigurationError) and e.field is const, "computed: %r", e)
    return True


# --- cases ----------------------------------------------------------------------


def _missing(g, c):
    return {"name": g.pick([f["name"] for f in ref.all_fields(c["schema"])])}


def _wrong(g, c):
    s, ctx, values = c["schema"], c["ctx"], c["values"]
    env = ref.effective(s, values, ctx)
    fs = ref.all_fields(s)
    out = []
    for f in fs:
        n = f["name"]
        if env[n] is ABSENT or f.get("const") or f.get("computed"):
            continue
        if any(case_ref(x, n) or n in repr(x.get("computed")) for x in fs):
            continue
        if f["k"] in ("int", "vli", "bytes", "str", "strz"):
            out.append(f)
        elif f["k"] == "array" and ref.array_count(f, env) is not None:
            out.append(f)
        elif f.get("null") is None and f["k"] != "nested":
            out.append(f)
    if not out:
        return {"name": None, "wrong": None}
    f = g.pick(out)
    k = f["k"]
    how = g.int(0, 3)
    if f.get("null") is None and (how == 0 or k not in (
            "int", "vli", "bytes", "str", "strz", "array")):
        return {"name": f["name"], "wrong": None}
    if k == "int":
        hi = 1 << (8 * f["size"] - (1 if f["signed"] else 0))
        lo = -hi if f["signed"] else 0
        v = g.pick([hi, lo - 1, hi * 2, hi + 7, lo - hi])
    elif k == "vli":
        if f["fmt"] in ("vlq", "uleb128"):
            v = -g.int(1, 300)
        elif f.get("null") is None:
            v = None
        else:
            return {"name": None, "wrong": None}
    elif k == "array":
        items = list(env[f["name"]] or [])
        if ref.array_count(f, env) is None or env[f["name"]] is None:
            return {"name": f["name"], "wrong": None} if f.get("null") is None else {
                "name": None, "wrong": None}
        if items and how == 1:
            v = items[:-1]
        elif items:
            v = items + [items[0]] * g.int(1, 1)
        elif f.get("null") is None:
            v = None
        else:
            return {"name": None, "wrong": None}
    else:
        size = ref.size_of(f, env)
        if size is None:
            if f.get("null") is None:
                return {"name": f["name"], "wrong": None}
            return {"name": None, "wrong": None}
        v = b"x" * (size + g.int(1, 5))
        if k != "bytes":
            v = v.decode()
        elif size and how == 2:
            v = b"x" * g.int(0, size - 1)
    return {"name": f["name"], "wrong": v}


def _unknown(g, c):
    return {"unknown": g.draw(st.lists(st.sampled_from(
        ["zz", "A", "a_", "_a", "self_", "nope", "b2"]), max_size=3))}


SUBS = [
    Sub("loading", gen.cases(gen.opts(**c25.OPTS), extra=c25._extra), loading, n=3500),
    Sub("missing", gen.cases(gen.opts(default=False, factory=False), extra=_missing),
        missing, n=1500),
    Sub("wrong", gen.cases(gen.opts(), extra=_wrong), wrong, n=2500),
    Sub("names", gen.cases(gen.opts(), extra=_unknown), names, n=1000),
    Sub("declarations", st.builds(
        lambda a, n, d: {"at": a, "n": n, "depth": d}, st.integers(0, 5),
        st.integers(1, 4), st.integers(0, 3)), declarations, n=100),
]
