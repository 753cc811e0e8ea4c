"""C21: annotation-style declarations behave like assignment-style ones."""
import io
import itertools
import sys
import types
import typing
import warnings

import binobj
from binobj import decorators, errors, fields
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Generated structs (inherited, nested, conditional, computed, sized by other fields)"
    " written out as the source of a module, each field in one of the forms of"
    " annotations - field class, instance, Annotated class or instance, struct class,"
    " each also Optional and with a default - between attributes that aren't fields, with"
    " and without postponed evaluation of annotations, with options and validators;"
    " against the same fields assigned. Oracle: the class declared by assignment (layout,"
    " options, bytes, loads, partial operations, calls of validators, refusals) and the"
    " independent encoder. Non-trivial: at least two fields."
)

CLASSES = {
    "Int8": {"k": "int", "size": 1, "signed": True},
    "Int16": {"k": "int", "size": 2, "signed": True},
    "Int32": {"k": "int", "size": 4, "signed": True},
    "Int64": {"k": "int", "size": 8, "signed": True},
    "UInt8": {"k": "int", "size": 1, "signed": False},
    "UInt16": {"k": "int", "size": 2, "signed": False},
    "UInt32": {"k": "int", "size": 4, "signed": False},
    "UInt64": {"k": "int", "size": 8, "signed": False},
    "Float16": {"k": "float", "fmt": "e"},
    "Float32": {"k": "float", "fmt": "f"},
    "Float64": {"k": "float", "fmt": "d"},
    "StringZ": {"k": "strz", "encoding": "iso-8859-1"},
    "UUID4": {"k": "uuid", "stored": "v1"},
    "Timestamp32": {"k": "ts", "size": 4, "res": "s", "aware": False, "signed": True},
    "Timestamp64": {"k": "ts", "size": 8, "res": "s", "aware": False, "signed": True},
}


class PGen(gen.Gen):
    names = [n for n in gen.NAMES if not n.startswith("__")]  # which are mangled

    def scalar(self, kinds=None, sized=False):
        if kinds is None and self.chance(5):
            name = self.pick(sorted(CLASSES))
            if sized and name == "StringZ":
                name = "UInt16"
            return {**CLASSES[name], "cls": name}
        return super().scalar(kinds, sized)


PLAIN = {"name", "k", "size", "signed", "fmt", "encoding", "stored", "res", "aware", "cls"}


def lineage(s):
    out = [s]
    while out[0].get("base"):
        out.insert(0, out[0]["base"])
    return out


def form_of(f, r):
    """One of the ways to annotate a field; r: a number to choose by."""
    out = {}
    rest = {k for k, v in f.items() if v is not None and k not in PLAIN}
    if f.get("null") == ("default",) and r & 1:
        out["optional"] = True
    if f.get("default") is not None and r & 2:
        out["default"] = True
        out["elsewhere"] = bool(r & 128)
    if f["k"] == "nested":
        rest -= {"struct"}
    rest -= {"null"} if out.get("optional") else set()
    rest -= {"default"} if out.get("default") else set()
    simple = not rest and (f.get("cls") or f["k"] == "nested")
    out["how"] = "class" if simple and r & 12 else "instance"
    # Annotated inside Optional isn't looked into, and neither is the other way round
    out["annotated"] = bool(r & 16) and not out.get("optional")
    out["more"] = (r >> 5) % 4
    return out


def declare(schema, case, log, builder, mod):
    """Write the source of the annotated classes and run it."""
    lines = ["from __future__ import annotations"] if case["postponed"] else []
    ns = mod.__dict__
    ns.update(binobj=binobj, fields=fields, Annotated=typing.Annotated,
              Optional=typing.Optional, ClassVar=typing.ClassVar, typing=typing,
              validates=decorators.validates, validates_struct=decorators.validates_struct,
              log=log, refuse=refuse)
    for name in CLASSES:
        ns[name] = getattr(fields, name)
    known = {}
    counter = itertools.count()
    kept = []

    def var(x):
        name = "v%d_" % next(counter)
        ns[name] = x
        return name

    chain = lineage(schema)
    numbers = iter(case["forms"] * 50)
    for level, s in enumerate(chain):
        base = "K%d" % (level - 1) if level else "binobj.Struct"
        if s.get("mixin"):
            where, names = s["mixin"]
            lines += ["class M%d:" % level, "    extra = 1"]
            lines += ["    %s: int" % n for n in names]
            base = "M%d, %s" % (level, base) if where == "before" else "%s, M%d" % (base, level)
        start, moved = len(lines), []
        lines += ["@binobj.dataclass", "class K%d(%s):" % (level, base)]
        if case["meta"]:
            ns["META"] = META[case["meta"]]
            lines += ["    class Meta:", "        argument_defaults = META"]
        if case["junk"]:
            lines += ["    not_one: int = 5", "    nor_one: ClassVar[str]", "    other = 7",
                      "    nothing: Annotated[int, 'doc']"]
        for f in s["fields"]:
            form = form_of(f, next(numbers))
            kept.append((f, form))
            if form["how"] == "class" and f["k"] == "nested":
                t = var(builder.struct(f["struct"]))
            elif form["how"] == "class":
                t = f["cls"]
            else:
                g = dict(f)
                if form.get("optional"):
                    g.pop("null")
                if form.get("default"):
                    g.pop("default")
                obj = bare(g, builder, known) if f.get("cls") else builder.field(g, known)
                known[f["name"]] = obj
                t = var(obj)
            if form.get("optional"):
                union = ["typing.Union[%s, None]"] + (
                    ["%s | None", "None | %s"] if form["how"] == "class" else [])
                t = ["Optional[%s]", *union][form["more"] % (1 + len(union))] % t
            if form["annotated"]:
                t = ["Annotated[object, %s]", "Annotated[int, 'doc', %s]",
                     "Annotated[Optional[str], %s, 3, list]",
                     "Annotated[object, None, %s, 'doc', int]"][form["more"]] % t
            line = "    %s: %s" % (f["name"], t)
            if form.get("default"):
                value = " = " + var(builder.arg(f, f["default"][0]))
                if form.get("elsewhere"):
                    moved.append("    " + f["name"] + value)
                else:
                    line += value
            lines.append(line)
            if form["how"] == "class":
                known[f["name"]] = None   # nothing can refer to it but by name
        lines += methods(case["validators"], level, [f["name"] for f in s["fields"]])
        if moved:
            # The values are attributes of another class it's derived from.
            bases = ["D%d" % level, base]
            if case["how"] % 2:
                bases.reverse()
            lines[start + 1] = "class K%d(%s):" % (level, ", ".join(bases))
            lines[start:start] = ["class D%d:" % level] + moved
    exec("\n".join(lines), ns)
    return ns["K%d" % (len(chain) - 1)], [ns["K%d" % i] for i in range(len(chain))], kept


def refuse(n, seen, log):
    """Validators refuse something now and then."""
    log.append((n, *seen))
    if log and len(log) == refuse.at:
        raise errors.ValidationError("refused", field=None, value=None)


refuse.at = 0


def methods(validators, level, names):
    out = []
    for n, (lv, pick, kind) in enumerate(validators):
        if lv != level or not names:
            continue
        first = names[pick % len(names)]
        which = [first] if kind % 3 else sorted({first, names[-1]})
        if kind == 7:
            out += ["    @validates_struct", "    def _check%d(self, values):" % n,
                    "        refuse(%d, ('struct', type(values).__name__), log)" % n]
        else:
            out += ["    @validates(%s)" % ", ".join(repr(x) for x in which),
                    "    def _check%d(self, field, value):" % n,
                    "        refuse(%d, (field.name, field.index, value), log)" % n]
    return out


META = {1: {"endian": "big"}, 2: {"UInt16__endian": "big", "encoding": "utf-16-le"},
        3: {"Float32__endian": "big", "endian": "little", "StringZ__encoding": "utf-8"}}


def assign(schema, case, log, builder):
    """The same by assignment."""
    base, classes, known = binobj.Struct, [], {}
    for level, s in enumerate(lineage(schema)):
        ns = {}
        if case["meta"]:
            ns["Meta"] = type("Meta", (), {"argument_defaults": META[case["meta"]]})
        for f in s["fields"]:
            obj = bare(f, builder, known) if f.get("cls") else builder.field(f, known)
            known[f["name"]] = ns[f["name"]] = obj
        src = methods(case["validators"], level, [f["name"] for f in s["fields"]])
        if src:
            scope = {"validates": decorators.validates, "log": log, "refuse": refuse,
                     "validates_struct": decorators.validates_struct}
            exec("class X:\n" + "\n".join(src), scope)
            ns.update({k: v for k, v in vars(scope["X"]).items() if k.startswith("_check")})
        base = type("K%d" % level, (base,), ns)
        classes.append(base)
    return base, classes


def bare(f, builder, known):
    """A field of one of the classes, given nothing but what differs."""
    if {k for k, v in f.items() if v is not None} - PLAIN - {"default", "null"}:
        return builder.field(f, known)
    kw = {}
    if f.get("default") is not None:
        kw["default"] = f["default"][0]
    if f.get("null") is not None:
        kw["null_value"] = fields.DEFAULT if f["null"][0] == "default" else f["null"][1]
    return getattr(fields, f["cls"])(**kw)


def describe(cls, names):
    return repr([
        (n, type(f).__name__, f.name, f.index, f.offset,
         f.size if isinstance(f.size, int) else None, f.discard, f.allow_null,
         f.null_value if f.allow_null else None,
         plain(f.default) if f.factory is None else "factory", f.is_computed_field,
         f.__objclass__.__name__, len(f.validators),
         None if isinstance(f, fields.VariableLengthInteger) else getattr(f, "endian", None),
         getattr(f, "encoding", None))
        for n in names for f in [getattr(cls, n)]
    ])


def outcome(f):
    try:
        return plain(f())
    except Exception as e:
        return type(e).__name__


def styles(case):
    """Both declarations, side by side."""
    schema, ctx, values = case["schema"], case["ctx"], case["values"]
    log_a, log_p = [], []
    b_a, b_p = spec.Builder(), spec.Builder()
    refuse.at = 0
    mod = types.ModuleType("vf_generated")
    sys.modules["vf_generated"] = mod
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", DeprecationWarning)
            a, chain_a = assign(schema, case, log_a, b_a)
            p, chain_p, kept = declare(schema, case, log_p, b_p, mod)
    finally:
        del sys.modules["vf_generated"]
    for ca, cp, s in zip(chain_a, chain_p, lineage(schema)):
        names = [f["name"] for f in ref.all_fields(s)]
        eq(describe(cp, names), describe(ca, names), "the fields")
        eq(cp.get_size(), ca.get_size(), "get_size()")
        for x in (cp, ca):
            for n in ("not_one", "nor_one", "nothing", "zz"):
                with raising(errors.UnexpectedValueError, "giving it %s", n):
                    x(**{n: 1})

    def both(what, f, *args, logs=True):
        del log_a[:], log_p[:]
        out_a = outcome(lambda: f(a, b_a, *args))
        out_p = outcome(lambda: f(p, b_p, *args))
        eq(out_p, out_a, what)
        if logs:
            eq(repr(log_p), repr(log_a), "the calls of validators by %s" % what)
        return out_a

    def dump(cls, b, values):
        return cls(**b.kwargs(schema, values, case["how"], ctx)).to_bytes(ctx)

    data = both("dumping", dump, values)
    check(isinstance(data, bytes), "dumping failed: %s", data)
    if not case["meta"]:
        eq_bytes(data, ref.enc_struct(schema, values, ctx), "the bytes")
    calls = len(log_a)
    loaded = both("loading", lambda cls, b: cls.from_bytes(data, ctx))
    check(isinstance(loaded, dict), "loading failed: %s", loaded)
    calls_load = len(log_a)
    if not case["meta"]:
        eq(loaded, ref.dec_struct(schema, data, 0, ctx)[0], "loading")
    # Refused at one point or another
    for at in range(1, max(calls, calls_load) + 1):
        refuse.at = at
        both("a dump that's refused", dump, values)
        both("a load that's refused", lambda cls, b: cls.from_bytes(data, ctx))
    refuse.at = 0

    both("to_dict()", lambda cls, b: cls(
        **b.kwargs(schema, values, 0, ctx)).to_dict(True, ctx))
    both("to_dict() without values", lambda cls, b: cls().to_dict(False, ctx))
    if not gen.uses_ctx(schema):
        both("len()", lambda cls, b: len(cls(**b.kwargs(schema, values, 0, ctx))))
    both("loading one byte less", lambda cls, b: cls.from_bytes(data[:-1], ctx))
    both("loading one byte more", lambda cls, b: cls.from_bytes(data + b"\0", ctx))
    for f in ref.all_fields(schema):
        n = f["name"]
        both("get_field(%s)" % n, lambda cls, b: cls.get_field(io.BytesIO(data), n, ctx))
        both("%s of an empty struct" % n, lambda cls, b: getattr(cls(), n))

        def partial(cls, b, i=0):
            s = io.BytesIO()
            cls(**b.kwargs(schema, values, 0, ctx)).partial_dump(s, n, ctx)
            return s.getvalue()

        both("partial_dump(%s)" % n, partial)
        both("partial_load(%s)" % n,
             lambda cls, b: cls.partial_load(io.BytesIO(data), n, ctx))
        for v in (None, values.get(n)):

            def set_(cls, b):
                x = cls(**b.kwargs(schema, values, 0, ctx))
                setattr(x, n, b.arg(f, v, 0, values, ctx))
                return x.to_bytes(ctx)

            both("assigning %r to %s" % (v, n), set_)

            def without(cls, b):
                x = cls(**b.kwargs(schema, values, 0, ctx))
                del x[n]
                return x.to_bytes(ctx)

        both("dumping without %s" % n, without)
    return len(kept) > 1


@st.composite
def _styles(draw):
    g = PGen(draw, gen.opts(groups=(1, 4), pep526=False, bom=False, depth=1))
    g.o["null"] = g.o["default"] = True
    s = g.schema()
    for f in ref.all_fields(s):
        if f["k"] in ("int", "float", "uuid", "ts") and f.get("cls") and g.chance(2):
            if not any(f.get(k) is not None for k in ("const", "computed", "null", "npv")):
                f["null"] = ("default",)
        if f.get("default") == [None] and not f.get("null"):
            f.pop("default")
    ctx = None
    if gen.uses_ctx(s):
        ctx = {"c0": g.chance(4), "c1": g.chance(4), "u0": g.int(0, 1)}
    meta = g.int(1, 3) if g.chance(1) else 0
    case = {"schema": s, "ctx": ctx, "how": g.int(0, 3), "meta": meta,
            "postponed": g.chance(3), "junk": g.chance(3),
            "forms": [g.int(0, 255) for _ in range(6)],
            "validators": [(g.int(0, 1), g.int(0, 5), g.int(0, 7))
                           for _ in range(g.int(0, 3))]}
    case["values"] = g.values(s, ctx)
    return case


# --- the forms one by one -------------------------------------------------------


def one(case):
    """Every form of one field of a class without arguments, exactly."""
    name = case["cls"]
    cls = getattr(fields, name)
    f = {**CLASSES[name], "name": "x"}
    if case["null"]:
        f["null"] = ("default",)
    if case["default"]:
        f["default"] = [case["v"]]
    b = spec.Builder()
    dflt = {"x": case["v"]} if case["default"] else {}
    kw = {"null_value": fields.DEFAULT} if case["null"] else {}
    O = (lambda t: typing.Optional[t]) if case["null"] else (lambda t: t)
    A = typing.Annotated
    forms = [
        (O(cls), dflt), (O(cls()), dflt), (O(cls(name="x")), dflt), (cls(**kw), dflt),
        (cls(**kw, **({"default": case["v"]} if case["default"] else {})), {}),
        (A[object, cls(**kw)], dflt), (A[object, 1, cls(**kw), "x"], dflt),
    ]
    if case["null"]:
        forms += [(typing.Union[None, cls], dflt), (cls | None, dflt), (None | cls, dflt)]
    else:
        forms += [(A[int, cls], dflt), (A[int, "doc", cls, 5], dflt),
                  (A[typing.Union[int, str], cls], dflt)]
    data = {}
    for given in ({}, {"x": case["v"]}, {"x": None}, {"x": case["w"]}):
        for i, (t, ns) in enumerate(forms):
            if i not in data:
                data[i] = binobj.dataclass(
                    type("F%d" % i, (binobj.Struct,), {"__annotations__": {"x": t}, **ns}))
            c = data[i]
            what = "form %d given %r" % (i, given)
            inst = c(**given)
            v = given.get("x", case["v"]) if given or case["default"] else ABSENT
            if v is ABSENT:
                with raising(errors.MissingRequiredValueError, what):
                    inst.to_bytes()
                continue
            if v is None and not case["null"]:
                with raising(errors.UnserializableValueError, what):
                    inst.to_bytes()
                continue
            want = ref.enc_struct({"fields": [f]}, {"x": v}, None)
            eq_bytes(inst.to_bytes(), want, what)
            eq(plain(c.from_bytes(want)), ref.dec_struct({"fields": [f]}, want, 0, None)[0],
               what + ", loaded")
            check(c.x.index == 0 and c.x.offset == 0 and c.x.name == "x", what)
            check(c.get_size() == ref.fixed_size(f), what + ": get_size()")
    return True


@st.composite
def _one(draw):
    g = gen.Gen(draw, gen.opts())
    name = g.pick(sorted(CLASSES))
    f = CLASSES[name]
    return {"cls": name, "v": g.value(f, {}, None), "w": g.value(f, {}, None),
            "null": name != "StringZ" and g.chance(4), "default": g.chance(4)}


SUBS = [
    Sub("styles", _styles(), styles, n=2000),
    Sub("one", _one(), one, n=500),
]
