"""C20: struct inheritance extends the parent, and bad declarations are refused."""
import io
import typing
import warnings

import binobj
from binobj import decorators, errors, fields
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Chains of one to four generated structs, declared by assignment, annotations or both"
    " in turn, against the same fields declared in one class; histories of declarations"
    " of children and siblings (valid ones, refused ones, with Meta options and"
    " validators) with a snapshot of every class declared so far compared after each; and"
    " every kind of misconfiguration at every depth of a chain. Oracle: the flat class, an"
    " independent encoder and decoder, the earlier snapshots and the table of documented"
    " errors. Non-trivial: at least one class that inherits fields."
)


def lineage(s):
    out = [s]
    while out[0].get("base"):
        out.insert(0, out[0]["base"])
    return out


def layout(cls, names):
    return (cls.get_size(), [
        (n, f.name, f.index, f.offset, f.size if isinstance(f.size, int) else None)
        for n in names for f in [getattr(cls, n)]
    ])


def chain(case):
    sut = Sut(case)
    ctx = case["ctx"]
    flat_schema = {"fields": ref.all_fields(sut.schema), "style": case["style"]}
    b = spec.Builder()
    for s in lineage(sut.schema):
        one = {"fields": ref.all_fields(s), "style": case["style"]}
        names = [f["name"] for f in ref.all_fields(s)]
        eq(layout(sut.builder.struct(s), names), layout(spec.Builder().struct(one), names),
           "layout of %r", names)
        check([getattr(sut.builder.struct(s), n).index for n in names]
              == list(range(len(names))), "the fields aren't in order")
        if s.get("base"):
            check(issubclass(sut.builder.struct(s), sut.builder.struct(s["base"])),
                  "not a subclass")
            for f in ref.all_fields(s["base"]):
                n = f["name"]
                check(getattr(sut.builder.struct(s), n)
                      is getattr(sut.builder.struct(s["base"]), n),
                      "the inherited field %s isn't the parent's", n)
    flat = b.struct(flat_schema)
    values = case["values"]
    inst, other = sut.make(values), b.make(flat_schema, values, case["how"], ctx)
    want = sut.bytes(values)
    eq_bytes(inst.to_bytes(ctx), want, "the child's bytes")
    eq_bytes(other.to_bytes(ctx), want, "the flat struct's bytes")
    eq(plain(inst.to_dict(True, ctx)), plain(other.to_dict(True, ctx)), "to_dict()")
    if not gen.uses_ctx(sut.schema):
        check(len(inst) == len(want), "len() is %d, not %d", len(inst), len(want))
    loaded, n = ref.dec_struct(sut.schema, want, 0, ctx)
    check(n == len(want), "harness: ambiguous")
    eq(plain(sut.cls.from_bytes(want, ctx)), loaded, "loading the child")
    eq(plain(flat.from_bytes(want, ctx)), loaded, "loading the flat struct")
    full = ref.dec_all(sut.schema, want, 0, ctx)[0]
    for name, v in full.items():
        eq(plain(sut.cls.get_field(io.BytesIO(want), name, ctx)), v, "get_field(%s)", name)
    # The classes further up the chain
    for s, vals in zip(lineage(sut.schema), case["more"]):
        data = ref.enc_struct(s, vals, ctx)
        cls = sut.builder.struct(s)
        eq_bytes(sut.builder.make(s, vals, case["how"], ctx).to_bytes(ctx), data,
                 "an ancestor's bytes")
        eq(plain(cls.from_bytes(data, ctx)), ref.dec_struct(s, data, 0, ctx)[0],
           "loading an ancestor")
        own = {f["name"] for f in ref.all_fields(s)}
        for name in set(full) - own:
            with raising(errors.UnexpectedValueError, "giving an ancestor %s", name):
                cls(**{name: None})
            with raising(KeyError, "asking an ancestor for %s", name):
                cls()[name]
            with raising(ValueError, "asking an ancestor for %s", name):
                cls.get_field(io.BytesIO(data), name, ctx)
    return len(lineage(sut.schema)) > 1


# --- trees ---------------------------------------------------------------------


class Refused(Exception):
    pass


def snapshot(b, s, values, ctx):
    """All there is to see of a class."""
    cls = b.struct(s)
    names = [f["name"] for f in ref.all_fields(s)]
    inst = b.make(s, values, 0, ctx)
    data = inst.to_bytes(ctx)
    loaded = cls.from_bytes(data, ctx)
    opts = [
        (n, type(f).__name__, f.discard, f.allow_null, plain(f.null_value)
         if f.allow_null else None, plain(f.default) if f.factory is None else None,
         f.__objclass__.__name__, getattr(f, "endian", None), getattr(f, "encoding", None),
         f.is_computed_field, len(f.validators))
        for n in names for f in [getattr(cls, n)]
    ]
    partial = io.BytesIO()
    inst.partial_dump(partial, names[-1], ctx)
    return {
        "layout": layout(cls, names), "bytes": data, "loaded": plain(loaded),
        "dict": plain(inst.to_dict(True, ctx)), "options": repr(opts),
        "known": sorted(n for n in gen.NAMES if has(cls, n)),
        "partial": partial.getvalue(),
        "mro": [c.__name__ for c in cls.__mro__],
    }


def has(cls, name):
    try:
        cls(**{name: 1})
    except errors.UnexpectedValueError:
        return False
    return True


def no(*_):
    raise Refused


BAD = ["redefine", "redefine-pep526", "redefine-tuple", "two-bases", "mixed", "empty",
       "union-type", "two-fields", "rename", "unknown-validates", "late"]


AGAIN = [
    fields.UInt8, lambda: fields.UInt8(discard=True), lambda: fields.UInt16(default=0),
    lambda: fields.UInt8(const=1), lambda: fields.StringZ(null_value=b"\0"),
    lambda: fields.UInt8(factory=int, discard=True), lambda: fields.Bytes(size=0),
    lambda: fields.UInt8(present=lambda *_: False), lambda: fields.Array(fields.UInt8()),
]


def declare_bad(kind, base, name, pick):
    """A declaration that's refused; returns a thunk and the error."""
    own = fields.UInt16(endian="big")
    again = AGAIN[pick % len(AGAIN)]()
    extra = pick & 1

    def simple(ns, error, deco=False, bases=(base,), ann=None):
        if ann:
            ns["__annotations__"] = ann

        def f():
            c = type("Bad", bases, ns)
            return binobj.dataclass(c) if deco else c

        return f, error

    if kind == "redefine":
        return simple({"zz1": own, name: again, "zz2": fields.UInt8()},
                      errors.FieldRedefinedError)
    if kind == "redefine-pep526":
        return simple({}, errors.FieldRedefinedError, True,
                      ann={"zz1": own, name: again if pick else fields.UInt8, "zz2": fields.UInt8()})
    if kind == "redefine-tuple":
        return simple({}, errors.FieldRedefinedError, True,
                      ann={name: typing.Annotated[int, again if pick else fields.UInt8]})
    if kind == "two-bases":
        other = type("Other", (binobj.Struct,), {"zz0": fields.UInt8()})
        return simple({"zz1": own}, errors.MultipleInheritanceError,
                      bases=(base, other) if extra else (other, base))
    if kind == "mixed":
        return simple({"zz1": own}, errors.MixedDeclarationsError, True,
                      ann={"zz2": fields.UInt8})
    if kind == "empty":
        return simple({"zz3": 5}, errors.NoDefinedFieldsError, True,
                      ann={"zz1": int, "zz3": int} if extra else None)
    if kind == "union-type":
        return simple({}, errors.InvalidTypeAnnotationError, True, ann={
            "zz1": own, "zz2": typing.Union[fields.UInt8, fields.UInt16]})
    if kind == "two-fields":
        return simple({}, errors.ConfigurationError, True, ann={
            "zz1": own, "zz2": typing.Annotated[int, fields.UInt8, fields.UInt16()]})
    if kind == "rename":
        return simple({"zz1": own, "zz2": fields.UInt8(name="other")},
                      errors.ConfigurationError)
    if kind == "unknown-validates":
        return simple({"zz1": own, "check": decorators.validates("zz9")(no)}, Exception)
    if kind == "late":
        # Refused by something else after the struct machinery's done.
        class Sub(base):
            def __init_subclass__(cls):
                super().__init_subclass__()
                raise Refused

        return (lambda: type("Bad", (Sub,), {"zz1": own, "v": decorators.validates(name)(no)})), Refused
    raise AssertionError(kind)


def tree(case):
    ctx = case["ctx"]
    b = spec.Builder()
    done = []   # (schema, values, snapshot)
    inherits = False
    for i, step in enumerate(case["steps"]):
        if step["kind"] in BAD:
            if not done:
                continue
            s = done[step["on"] % len(done)][0]
            base = b.struct(s)
            names = [f["name"] for f in ref.all_fields(s)]
            name = names[step["pick"] % len(names)]
            make, error = declare_bad(step["kind"], base, name, step["pick"])
            with raising(error, "declaring a struct that's wrong (%s)" % step["kind"]):
                make()
        elif step["kind"] == "rejecting":
            # A child with options and validators of its own
            if not done:
                continue
            s = done[step["on"] % len(done)][0]
            base = b.struct(s)
            names = [f["name"] for f in ref.all_fields(s)]
            name = names[step["pick"] % len(names)]
            ns = {"zz1": fields.UInt16(), "zz2": fields.StringZ(),
                  "Meta": type("Meta", (), {"argument_defaults": {
                      "endian": "big" if step["pick"] & 2 else "little",
                      "encoding": "utf-16-le", "default": 7, "null_value": b"\0"}}),
                  "on_field": decorators.validates(name, "zz1")(no)}
            if step["pick"] & 1:
                ns["on_struct"] = decorators.validates_struct(no)
            kid = type("Kid", (base,), ns)
            inherits = True
            check(kid.zz1.index == len(names), "index of the child's first field")
            values = done[step["on"] % len(done)][1]
            with raising(Refused, "dumping a child whose validators refuse everything"):
                kid(**b.kwargs(s, values, 0, ctx), zz1=1, zz2="a").to_bytes(ctx)
        else:
            s = step["schema"]
            b.struct(s)
            inherits = inherits or bool(s.get("base"))
            done.append((s, step["values"], snapshot(b, s, step["values"], ctx)))
            eq_bytes(done[-1][2]["bytes"], ref.enc_struct(s, step["values"], ctx),
                     "the bytes of class %d" % i)
        for j, (s, values, before) in enumerate(done):
            now = snapshot(b, s, values, ctx)
            for k in before:
                check(now[k] == before[k] or repr(now[k]) == repr(before[k]),
                      "step %d (%s) changed the %s of class %d: %r is now %r", i,
                      step["kind"], k, j, before[k], now[k])
    return inherits


@st.composite
def _tree(draw):
    g = gen.Gen(draw, gen.opts(groups=(1, 2), inherit=False, bom=False, eof=False,
                               factory=False, ctx=False, depth=1))
    steps, schemas, used = [], [], {}
    for _ in range(g.int(3, 7)):
        kind = g.pick(["declare"] * 4 + ["rejecting"] + ["bad"] * 3) if schemas else "declare"
        if kind == "bad":
            kind = g.pick(BAD)
        step = {"kind": kind, "on": g.int(0, 5), "pick": g.int(0, 17)}
        if kind == "declare":
            s = g.schema()
            base = g.pick(schemas) if schemas and g.chance(6) else None
            if base is not None:
                taken = {f["name"] for f in ref.all_fields(base)}
                if taken & {f["name"] for f in s["fields"]}:
                    s = rename(s, "_k%d" % len(schemas))
                s["base"] = base
            s["name"] = "C%d" % len(schemas)
            schemas.append(s)
            step["schema"] = s
            step["values"] = g.values(s, None)
        steps.append(step)
    return {"steps": steps, "ctx": None}


def rename(s, suffix):
    """Give the fields of a struct (not of those in it) other names."""
    names = {f["name"] for f in s["fields"]}

    def ref_(r):
        if isinstance(r, list) and r and r[0] == "ref" and r[1] in names:
            return ["ref", r[1] + suffix, *r[2:]]
        return r

    def cond(c):
        if c[0] in ("mask", "gt"):
            return [c[0], c[1] + suffix, *c[2:]]
        return [cond(x) if isinstance(x, (list, tuple)) else x for x in c]

    def one(f, top=True):
        f = dict(f)
        if top:
            f["name"] += suffix
        for k in ("size", "count"):
            if f.get(k) is not None:
                f[k] = ref_(f[k])
        if f.get("present"):
            f["present"] = cond(f["present"])
        if f.get("computed") and f["computed"][0] != "const":
            f["computed"] = [f["computed"][0], f["computed"][1] + suffix, *f["computed"][2:]]
        if f.get("by") and f["by"][0] == "field":
            f["by"] = ["field", f["by"][1] + suffix]
        if f.get("halt") and f["halt"][0] == "count":
            f["halt"] = ["count", f["halt"][1] + suffix]
        if f.get("comp"):
            f["comp"] = one(f["comp"], False)
        if f.get("choices"):
            f["choices"] = [(k, one(c, False) if k == "f" else c) for k, c in f["choices"]]
        return f

    return {**s, "fields": [one(f) for f in s["fields"]]}


# --- misconfigured declarations --------------------------------------------------


def ann(t):
    return lambda base: binobj.dataclass(type("Bad", (base,), {"__annotations__": {"q": t}}))


def ns(**kw):
    return lambda base: type("Bad", (base,), kw)


def lazy(f):
    return lambda base: type("Bad", (base,), f())


def computed_twice():
    q = fields.UInt8()
    q.computes(lambda *_: 1)
    q.computes(lambda *_: 2)
    return {"q": q}


def computed_const():
    q = fields.UInt8(const=3)
    q.computes(lambda *_: 1)
    return {"q": q}


def d(*_):
    return None


C = errors.ConfigurationError
MISTAKES = {
    "default and factory": (C, lazy(lambda: {"q": fields.UInt8(default=1, factory=int)})),
    "None and factory": (C, lazy(lambda: {"q": fields.StringZ(default=None, factory=str)})),
    "computed twice": (C, lazy(computed_twice)),
    "computed constant": (C, lazy(computed_const)),
    "union of a field class": (C, lazy(lambda: {"q": fields.Union(
        fields.UInt8(), fields.UInt16, load_decider=d, dump_decider=d)})),
    "resolution": (C, lazy(lambda: {"q": fields.Timestamp(size=4, resolution="h")})),
    "resolution 64": (C, lazy(lambda: {"q": fields.Timestamp64(resolution="S")})),
    "float endian": (C, lazy(lambda: {"q": fields.Float32(endian="middle")})),
    "pad byte type": (C, lazy(lambda: {"q": fields.String(size=3, pad_byte=" ")})),
    "pad byte int": (C, lazy(lambda: {"q": fields.StringZ(size=3, pad_byte=32)})),
    "pad byte empty": (C, lazy(lambda: {"q": fields.String(size=3, pad_byte=b"")})),
    "pad byte long": (C, lazy(lambda: {"q": fields.String(size=3, pad_byte=b"  ")})),
    "varint format": (C, lazy(lambda: {"q": fields.VariableLengthInteger(
        vli_format="other")})),
    "count float": (TypeError, lazy(lambda: {"q": fields.Array(fields.UInt8(), count=2.0)})),
    "count true": (TypeError, lazy(lambda: {"q": fields.Array(fields.UInt8(), count=True)})),
    "count false": (TypeError, lazy(lambda: {"q": fields.Array(fields.UInt8(),
                                                              count=False)})),
    "count list": (TypeError, lazy(lambda: {"q": fields.Array(fields.UInt8(), count=[1])})),
    "other name": (C, lazy(lambda: {"q": fields.UInt8(name="r")})),
    "other name, const": (C, lazy(lambda: {"q": fields.Bytes(name="Q", const=b"a")})),
    "annotated other name": (C, lambda base: ann(fields.UInt8(name="r"))(base)),
    "validates nothing": (TypeError, lazy(lambda: {
        "q": fields.UInt8(), "v": decorators.validates()(d)})),
    "validates bare": (TypeError, lazy(lambda: {
        "q": fields.UInt8(), "v": decorators.validates(d)})),
    "validates a field": (TypeError, lazy(lambda: {
        "q": fields.UInt8(), "v": decorators.validates(fields.UInt8())(d)})),
    "validates a field too": (TypeError, lazy(lambda: {
        "q": fields.UInt8(), "v": decorators.validates("q", fields.UInt8())(d)})),
    "annotated types": (errors.InvalidTypeAnnotationError, lambda base: ann(
        typing.Union[fields.UInt8, fields.StringZ])(base)),
    "annotated types by |": (errors.InvalidTypeAnnotationError, lambda base: ann(
        fields.UInt8 | fields.Int16)(base)),
    "annotated types or None": (errors.InvalidTypeAnnotationError, lambda base: ann(
        typing.Union[fields.UInt8, fields.StringZ, None])(base)),
    "annotated fields": (C, lambda base: ann(
        typing.Annotated[int, fields.UInt8, fields.UInt8])(base)),
    "annotated fields apart": (C, lambda base: ann(
        typing.Annotated[int, fields.UInt8, "doc", fields.UInt16()])(base)),
    "no fields": (errors.NoDefinedFieldsError, lambda base: ann(int)(base)),
    "no annotations": (errors.NoDefinedFieldsError, lambda base: binobj.dataclass(
        type("Bad", (base,), {"q": 3}))),
    "mixed": (errors.MixedDeclarationsError, lambda base: binobj.dataclass(
        type("Bad", (base,), {"__annotations__": {"q": fields.UInt8},
                              "r": fields.UInt8()}))),
    "decorated": (errors.MixedDeclarationsError, lambda base: binobj.dataclass(
        type("Bad", (base,), {"r": fields.UInt8()}))),
}


def mistakes(case):
    """A misconfigured declaration below a chain of valid ones."""
    error, make = MISTAKES[case["what"]]
    bases, base = [], binobj.Struct
    for i, style in enumerate(case["styles"]):
        f = fields.Bytes(size=i) if i % 2 else fields.StringZ()
        if style:
            base = binobj.dataclass(type("B%d" % i, (base,), {
                "__annotations__": {"f%d" % i: f}}))
        else:
            base = type("B%d" % i, (base,), {"f%d" % i: f})
        bases.append(base)
    values = {"f%d" % i: "ab"[:i % 3] if i % 2 == 0 else b"x" * i
              for i in range(len(bases))}
    data = base(**values).to_bytes() if bases else b""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(2):
            with raising(error, "declaring a struct that's wrong (%s)", case["what"]):
                make(base)
    # No harm done
    if bases:
        eq_bytes(base(**values).to_bytes(), data, "the parent's bytes")
        eq(plain(base.from_bytes(data)), values, "loading the parent")
    good = type("Good", (base,), {"q": fields.UInt8()})
    eq_bytes(good(**values, q=3).to_bytes(), data + b"\3", "a child declared afterwards")
    return bool(bases)


SUBS = [
    Sub("chain", gen.cases(
        gen.opts(inherit=2, groups=(2, 5), bom=False),
        extra=lambda g, c: {"style": g.pick(["assign", "pep526"]),
                            "more": [g.values(s, c["ctx"]) for s in lineage(c["schema"])]},
    ), chain, n=2000),
    Sub("tree", _tree(), tree, n=1200),
    Sub("mistakes", st.builds(lambda w, s: {"what": w, "styles": s},
                              st.sampled_from(sorted(MISTAKES)),
                              st.lists(st.booleans(), max_size=4)), mistakes, n=600),
]
