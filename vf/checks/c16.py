"""C16: explicit, default, factory, constant and computed values follow one order."""
import io

import binobj
from binobj import errors, fields
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import Lazy, Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Structs of one to six fields, each with none or one of a default, a factory, a"
    " constant and a computing function (also of other computed fields), nullable or not,"
    " discarded or not, and any subset of them given a value (falsy ones and None"
    " included) by the constructor, an attribute or an item, then deleted again one by"
    " one; and the general generator. Factories and computing functions that raise"
    " exceptions of a dozen classes. Oracle: the documented order, evaluated on demand,"
    " and an independent encoder. Non-trivial: at least two different sources of values."
)


def schema(fs):
    return {"fields": fs}


def reads(inst, env, s, what):
    """Attributes and items agree with the expected values; returns what's missing."""
    missing = []
    for f in ref.all_fields(s):
        name = f["name"]
        try:
            want = env[name]
        except ref.RefMissing:
            missing.append(name)
            with raising(errors.MissingRequiredValueError, "%s: attribute %r" % (what, name)):
                getattr(inst, name)
            with raising(errors.MissingRequiredValueError, "%s: item %r" % (what, name)):
                inst[name]
            continue
        eq(plain(getattr(inst, name)), want, "%s: attribute %r" % (what, name))
        eq(plain(inst[name]), want, "%s: item %r" % (what, name))
    return missing


def agree(inst, s, given, what):
    """All the ways to read the struct agree with the documented order."""
    env = Lazy(s, given, None)
    missing = reads(inst, env, s, what)
    names = [f["name"] for f in ref.all_fields(s)]
    if missing:
        stream = io.BytesIO()
        with raising(errors.MissingRequiredValueError, "%s: dumping" % what):
            inst.to_stream(stream)
        limit = b""
        for f in ref.all_fields(s):
            if f["name"] in missing:
                break
            limit += ref.enc_value(f, env[f["name"]], env, None)
        check(limit.startswith(stream.getvalue()), "%s: %r was written", what,
              stream.getvalue())
        with raising(errors.MissingRequiredValueError, "%s: to_dict" % what):
            inst.to_dict(keep_discardable=True)
    else:
        want = b"".join(ref.enc_value(f, env[f["name"]], env, None)
                        for f in ref.all_fields(s))
        eq_bytes(inst.to_bytes(), want, "%s: to_bytes" % what)
        full = {n: env[n] for n in names}
        eq(plain(inst.to_dict(keep_discardable=True)), full, "%s: to_dict" % what)
        eq(plain(inst.to_dict()),
           {f["name"]: full[f["name"]] for f in ref.all_fields(s) if not f.get("discard")},
           "%s: to_dict without discarded" % what)
        check(len(inst) == len(want), "%s: len() is %d of %r", what, len(inst), want)
    eq(set(inst), set(given), "%s: the fields that are set" % what)


def order(case):
    s, given, how = schema(case["fields"]), case["given"], case["set"]
    cls = spec.Builder().struct(s)
    by = {f["name"]: f for f in s["fields"]}
    fixed = {n for n, f in by.items() if f.get("const") or f.get("computed")}
    at_init = {n: v for n, v in given.items() if how.get(n) == "init" or n in fixed}
    inst = cls(**at_init)
    state = dict(at_init)
    agree(inst, s, state, "constructed")
    for n, v in given.items():
        if n in at_init:
            continue
        if how[n] == "attr":
            setattr(inst, n, v)
        else:
            inst[n] = v
        state[n] = v
        agree(inst, s, state, "after setting %r" % n)
    for n in fixed:
        for v in (given.get(n, 0), None, 1):
            with raising(errors.ImmutableFieldError, "setting attribute %r" % n):
                setattr(inst, n, v)
            with raising(errors.ImmutableFieldError, "setting item %r" % n):
                inst[n] = v
    agree(inst, s, state, "after refused assignments")
    for n in case["delete"]:
        if n in state:
            del inst[n]
            state.pop(n)
            agree(inst, s, state, "after deleting %r" % n)
    kinds = {k for f in s["fields"] for k in ("default", "factory", "const", "computed")
             if f.get(k)}
    return len(kinds) + bool(given) >= 2


def general(case):
    """The values reported by generated structs are those that are dumped."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    env = ref.effective(sut.schema, values, ctx)
    inst = sut.make(values)
    eq_bytes(inst.to_bytes(ctx), sut.bytes(values), "to_bytes")
    got = plain(inst.to_dict(keep_discardable=True, context=ctx))
    for f in ref.all_fields(sut.schema):
        n = f["name"]
        if any(True for _ in gen.substructs(f)):
            continue
        if env[n] is ABSENT:
            check(got.get(n, ABSENT) is ABSENT, "to_dict gives %r for the absent %r",
                  got.get(n), n)
            continue
        eq(got[n], env[n], "to_dict()[%r]" % n)
        if not f.get("present"):
            eq(plain(getattr(inst, n)), env[n], "attribute %r" % n)
            eq(plain(inst[n]), env[n], "item %r" % n)
    return any(f.get(k) for f in ref.all_fields(sut.schema)
               for k in ("default", "factory", "const", "computed"))


def mismatch(case):
    """Data with something else in place of a constant."""
    f, other = case["f"], case["other"]
    b = spec.Builder()
    s = schema([
        {"k": "int", "name": "p", "size": 1, "signed": False}, {**f, "name": "v"},
        {"k": "int", "name": "q", "size": 1, "signed": False}])
    cls, fld = b.struct(s), b.field(f)
    enc = ref.enc_value(f, f["const"][0], {}, None)
    plain_f = {k: v for k, v in f.items() if k not in ("const", "null")}
    if f["k"] != "vli":
        plain_f.setdefault("size", len(enc))
    bad = ref.enc_value(plain_f, other, {}, None)
    good = cls.from_bytes(b"\1" + enc + b"\2")
    eq(good.v, f["const"][0], "the constant")
    eq_bytes(cls(p=1, q=2).to_bytes(), b"\1" + enc + b"\2", "the constant")
    loaded, _ = ref.dec_value(plain_f, bad, 0, {}, None)
    if loaded == f["const"][0]:
        return False
    data = b"\1" + bad + b"\2"
    for what, fn in (
        ("from_bytes", lambda: cls.from_bytes(data)),
        ("from_stream", lambda: cls.from_stream(io.BytesIO(data))),
        ("partial_load", lambda: cls.partial_load(io.BytesIO(data), "q")),
        ("partial_load", lambda: cls.partial_load(io.BytesIO(data))),
        ("get_field", lambda: cls.get_field(io.BytesIO(data), "v")),
        ("Field.from_bytes", lambda: fld.from_bytes(bad)),
        ("Field.from_stream", lambda: fld.from_stream(io.BytesIO(bad))),
    ):
        with raising(errors.ValidationError, "%s with %r for the constant %r" % (
                what, other, f["const"][0])):
            fn()
    return True


def fresh(case):
    """Each value from a factory is a new one."""
    made = []

    def factory():
        v = list(case["items"])
        made.append(v)
        return v

    n = len(case["items"])
    kw = {"default": factory} if case["old"] else {"factory": factory}
    cls = type("Fresh", (binobj.Struct,), {
        "a": fields.Array(fields.UInt8(), count=n, **kw),
        "b": fields.UInt8(default=7),
    })
    check(not made, "the factory was called by declaring the struct")
    one, two = cls(), cls()
    want = bytes(case["items"]) + b"\7"
    for inst in (one, two):
        eq_bytes(inst.to_bytes(), want, "from the factory")
        eq(inst.a, list(case["items"]), "from the factory")
    check(made, "the factory wasn't called")
    one.a.append(9)
    two.a[:] = []
    for inst in (one, two, cls()):
        eq_bytes(inst.to_bytes(), want, "after changing a factory's result")
        check(not list(inst), "a factory's result counts as set: %r", list(inst))
    return n > 0


class Oops(Exception):
    pass


OOPS = [Oops, KeyError, ValueError, EOFError, TypeError, AttributeError, IndexError,
        OSError, StopIteration, OverflowError, MemoryError, RuntimeError]


def failing(case):
    """What a factory or computing function raises comes out, and no value is made up."""
    exc = [None]
    kind = case["kind"]

    def source(*_):
        if exc[0] is not None:
            raise exc[0]
        return 5

    kw = {"null_value": b"\xff"} if case["null"] else {}
    if kind == "computed":
        x = fields.UInt8(**kw)
        x.computes(source)
    else:
        x = fields.UInt8(**{kind: source}, **kw)
    ns = {"a": fields.UInt8(), "x": x, "z": fields.Bytes(size=x)}
    if case["nested"]:
        ns["a"] = fields.UInt8(default=1)
        inner = type("I", (binobj.Struct,), ns)
        cls = type("S", (binobj.Struct,), {"n": fields.Nested(inner), "q": fields.UInt8()})
        values = {"n": inner(a=1, z=b"12345"), "q": 2}
        want, first = b"\1\x0512345\2", "n"
        get = [lambda: inner.x.__get__(inst.n, inner), lambda: inst.n["x"]]
    else:
        cls = type("S", (binobj.Struct,), ns)
        values, want, first = {"a": 1, "z": b"12345"}, b"\1\x0512345", "x"
        get = [lambda: inst.x, lambda: inst["x"]]
    inst = cls(**values)
    s = io.BytesIO()
    for kind in case["excs"]:
        exc[0] = OOPS[kind]("oops")
        for what, act in (
            ("to_bytes()", inst.to_bytes), ("to_stream()", lambda: inst.to_stream(s)),
            ("to_dict()", inst.to_dict), ("partial_dump()", lambda: inst.partial_dump(s)),
            ("partial_dump()", lambda: inst.partial_dump(s, first)),
            ("reading the attribute", get[0]), ("reading the item", get[1]),
        ):
            s.seek(0)
            s.truncate()
            try:
                out = act()
            except Exception as e:
                check(e is exc[0], "%s: %r came out as %r", what, exc[0], e)
            else:
                check(False, "%s: %r was swallowed; got %r", what, exc[0], out)
            check(want.startswith(s.getvalue()), "%s: %r was written", what, s.getvalue())
        exc[0] = None
        eq_bytes(inst.to_bytes(), want, "afterwards")
        check(len(inst) == len(want), "len() afterwards is %d", len(inst))
        check(sorted(inst) == sorted(values), "set fields afterwards: %r", sorted(inst))
        eq_bytes(cls.from_bytes(want).to_bytes(), want, "loading afterwards")
    return True


# --- strategies ------------------------------------------------------------------

FALSY = {"int": 0, "bytes": b"", "strz": "", "array": []}


@st.composite
def _order(draw):
    g = gen.Gen(draw, gen.opts(codecs=gen.PLAIN_CODECS))
    names = g.pick([["a", "b", "c", "d", "e", "f"], ["f", "e", "d", "c", "b", "a"]])
    fs, given, how = [], {}, {}
    for name in names[:g.int(1, 6)]:
        k = g.pick(["int", "int", "int", "strz", "bytes", "array"])
        f = {"k": k, "name": name}
        if k == "int":
            f.update(size=g.pick([1, 2, 4]), signed=False, endian="big")
        elif k == "bytes":
            f.update(size=g.pick([0, 2]))
        elif k == "strz":
            f.update(encoding="utf-8")
        else:
            f.update(comp={"k": "int", "size": 1, "signed": False}, count=g.pick([0, 2]))
        value = lambda: (FALSY[k] if g.chance(3) and not f.get("size") in (2,) * (k == "bytes")
                         and not f.get("count") else g.value(f, {}, None))
        if k in ("int", "bytes") and f["size"] and g.chance(3):
            f["null"] = ("default",)
        src = g.pick(["none", "default", "default", "factory", "const", "computed"])
        if src in ("default", "factory"):
            f[src] = [None if f.get("null") and g.chance(2) else value()]
            if k == "int" and g.chance(2):
                # The default comes first.
                f["computed"] = ["const", g.int(0, 9)]
        elif src == "const" and k != "array":
            f["const"] = [value()]
        elif src == "computed":
            f.pop("null", None)
            f.update(k="int", size=8, signed=True, endian="big")
            f.pop("count", None), f.pop("comp", None), f.pop("encoding", None)
            others = [x for x in fs if x["k"] == "int" and not x.get("null")]
            seqs = [x for x in fs if x["k"] in ("bytes", "strz", "array")
                    and not x.get("null")]
            if others and g.chance(4):
                f["computed"] = ["add", g.pick(others)["name"], g.int(-3, 3)]
            elif seqs and g.chance(4):
                f["computed"] = ["len", g.pick(seqs)["name"]]
            else:
                f["computed"] = ["const", g.int(0, 9)]
            if g.chance(2):
                f["null"] = ("default",)
        if g.chance(2):
            f["discard"] = True
        k = f["k"]
        if g.chance(4):
            if f.get("const"):
                given[name] = f["const"][0]
            elif f.get("null") and g.chance(3):
                given[name] = None
            else:
                given[name] = g.value(f, {}, None) if f.get("computed") else value()
            how[name] = g.pick(["init", "attr", "item"])
        fs.append(f)
    # A computed value of something computed may be None when that's explicitly None.
    for f in fs:
        if f.get("computed") and f["computed"][0] in ("add", "len"):
            src = f["computed"][1]
            if given.get(src, 0) is None:
                del given[src]
            for x in fs:
                if x["name"] == src and x.get("null"):
                    x.pop("null")
                    for key in ("default", "factory"):
                        if x.get(key) == [None]:
                            x.pop(key)
            v = given.get(src)
            if isinstance(v, int) and not -(1 << 62) < v < 1 << 62:
                given[src] = 5
    order_ = draw(st.permutations(sorted(given)))
    return {"fields": fs, "given": given, "set": how, "delete": list(order_)}


@st.composite
def _mismatch(draw):
    g = gen.Gen(draw, gen.opts(codecs=["iso-8859-1", "utf-8"]))
    f = g.scalar(["int", "bytes", "str", "strz", "uuid", "vli", "float"])
    f.pop("pad", None)
    if f["k"] == "float":
        fmt = f["fmt"]
        one = lambda: ref.float_from_bits(ref.float_bits(g.value(f, {}, None), fmt), fmt)
    elif f["k"] in ("str", "strz", "bytes") and g.chance(4):
        n = g.int(1, 4)
        f.pop("size", None)
        z = f["k"] == "strz"
        if f["k"] == "bytes":
            one = lambda: draw(st.binary(min_size=n, max_size=n))
        else:
            one = lambda: draw(st.text(st.characters(min_codepoint=1, max_codepoint=127),
                                       min_size=n, max_size=n))
    else:
        one = lambda: g.value(f, {}, None)
    f["const"] = [one()]
    if g.chance(2):
        f["discard"] = True
    return {"f": f, "other": one()}


SUBS = [
    Sub("order", _order(), order, n=2500),
    Sub("general", gen.cases(gen.opts(cond=True)), general, n=2000),
    Sub("mismatch", _mismatch(), mismatch, n=2000),
    Sub("fresh", st.builds(lambda i, o: {"items": i, "old": o},
                           st.lists(st.integers(0, 255), max_size=4), st.booleans()),
        fresh, n=200),
    Sub("failing", st.fixed_dictionaries({
        "kind": st.sampled_from(["computed", "factory"]), "null": st.booleans(),
        "nested": st.booleans(), "excs": st.lists(st.integers(0, len(OOPS) - 1),
                                                  min_size=1, max_size=3, unique=True),
    }), failing, n=300),
]
