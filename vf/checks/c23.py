"""C23: a struct behaves as a mapping of its explicitly set fields."""
import collections
import random
import types
import warnings
from collections.abc import Mapping, MutableMapping

import binobj
from binobj import errors, fields
from binobj.structures import MutableStructMappingProxy, StructMappingProxy
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import Lazy, Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain, same

RULE = (
    "Histories of up to thirty operations (item, attribute and proxy reads and writes,"
    " deletions, update, pop, popitem, setdefault, clear, refused and unknown ones,"
    " comparisons, copies) on two instances of one struct and one of a subclass, with"
    " fields of every source of values; after each one every view of every instance is"
    " compared with a dictionary model. Pairs of structs and mappings that are equal or"
    " differ in one place, in every representation. Generated structs assembled in any"
    " order through any view. Oracle: a dictionary. Non-trivial: at least two changes, or"
    " at least one set field."
)


class Inner(binobj.Struct):
    x = fields.UInt8()
    y = fields.StringZ(default="q")


def even(_field, value):
    if value is not None and value % 2:
        raise errors.ValidationError("odd", field=_field, value=value)


def declare():
    class S(binobj.Struct):
        a = fields.UInt8()
        b = fields.UInt16(default=7)
        t = fields.StringZ(default=None, null_value=b"N\0")
        k = fields.UInt8(const=9)
        n = fields.UInt8()
        arr = fields.Array(fields.UInt8(), count=n)
        sub = fields.Nested(Inner)
        o = fields.UInt8(present=lambda f, *_: f["a"] > 5)
        d = fields.Bytes(size=2, discard=True)
        v = fields.Int8(validate=even)
        w = fields.Array(fields.UInt8(), factory=list)

        @n.computes
        def _n(self, values):
            return len(values["arr"])

    class T(S):
        z = fields.UInt8(default=0)

    return S, T


NAMES = ["a", "b", "t", "k", "n", "arr", "sub", "o", "d", "v", "w"]
FIXED = ("k", "n")
DEPENDS = {"n": {"arr"}, "o": {"a"}}
UNKNOWN = ["q", "A", "", "__values__", "to_bytes", "aa", "get", "x", "_n"]
MISSING = object()


def read(state, name):
    """The value read for a field."""
    if name in state:
        return state[name]
    simple = {"b": 7, "t": None, "k": 9, "w": [], "z": 0}
    if name in simple:
        return simple[name]
    if name == "n":
        return len(state["arr"]) if "arr" in state else MISSING
    if name == "o" and "a" in state and state["a"] <= 5:
        return ABSENT
    return MISSING


def value(form, v):
    if isinstance(v, dict):
        if form == 1:
            return Inner(**v)
        if form == 2:
            return Inner(x=v["x"], y=v["y"])
        return dict(v)
    if isinstance(v, list):
        return tuple(v) if form == 1 else list(v)
    return v


def simple(v):
    """As a plain value."""
    return dict(v) if isinstance(v, dict) else v


class World:
    def __init__(self, inits):
        S, T = declare()
        self.S, self.T = S, T
        self.items = []
        self.undefined = [set(), set(), set()]
        for i, init in enumerate(inits):
            cls = T if i == 2 else S
            s = cls(**{k: value(f, v) for k, (f, v) in init.items()})
            names = NAMES + (["z"] if i == 2 else [])
            self.items.append((s, {k: v for k, (f, v) in init.items()}, names,
                               MutableStructMappingProxy(s), StructMappingProxy(s)))

    def views(self, what):
        for i, (s, state, names, mp, p) in enumerate(self.items):
            w = "%s: instance %d" % (what, i)
            eq(sorted(n for n in s), sorted(state), w + ": iteration")
            check(len([n for n in s]) == len(state), "%s: duplicates in iteration", w)
            for n in names:
                if self.undefined[i] & ({n} | DEPENDS.get(n, set())):
                    continue    # What's read then is not said anywhere.
                want = read(state, n)
                for form, get in (("attribute", lambda: getattr(s, n)),
                                  ("item", lambda: s[n]), ("proxy", lambda: mp[n]),
                                  ("read-only proxy", lambda: p[n])):
                    if want is MISSING:
                        with raising(errors.MissingRequiredValueError, "%s: %s %s", w,
                                     form, n):
                            get()
                    else:
                        eq(plain(get()), plain(want), "%s: %s %s", w, form, n)
            for q in (mp, p):
                check(len(q) == len(state), "%s: the proxy's length is %d", w, len(q))
                eq(sorted(q), sorted(state), w + ": the proxy's iteration")
                eq(sorted(q.keys()), sorted(state), w + ": keys()")
                eq({k: plain(x) for k, x in q.items()}, state, w + ": items()")
                eq(sorted(map(repr, map(plain, q.values()))),
                   sorted(map(repr, state.values())), w + ": values()")
                eq([k for k, _ in q.items()], list(q.keys()), w + ": order of items()")
                eq(plain(list(q.values())), [state[k] for k in q.keys()],
                   w + ": order of values()")
                for n in names + UNKNOWN + [None, 3]:
                    check((n in q) == (n in state), "%s: %r in proxy is %r", w, n, n in q)
                    check((n in q.keys()) == (n in state), "%s: %r in keys()", w, n)
                for n in state:
                    eq(plain(q.get(n)), state[n], w + ": get()")
                for n in UNKNOWN:
                    check(q.get(n, 5) == 5, "%s: get(%r, 5)", w, n)
                check(bool(q) == bool(state), "%s: truth", w)
            check(isinstance(mp, MutableMapping) and isinstance(p, Mapping)
                  and not isinstance(p, MutableMapping), "abstract classes")
            flat = {k: plain(x) for k, x in dict(mp).items()}
            eq(flat, state, w + ": dict(proxy)")
            for other in (state, types.MappingProxyType(state),
                          collections.OrderedDict(reversed(list(state.items()))),
                          collections.UserDict(state), mp, p, s):
                check(s == other and not s != other, "%s: differs from %r", w, other)
            more = {**state, "q": 1}
            less = dict(list(state.items())[:-1])
            for other in [more] + ([less] if state else []):
                check(s != other and not s == other, "%s: equals %r", w, other)
            for other in (None, 3, "a", b"", [], list(state.items()), object()):
                check(not s == other and s != other, "%s: equals %r", w, other)
        for i, (s, state, _, mp, _) in enumerate(self.items):
            for j, (t, other, _, mp2, _) in enumerate(self.items):
                want = same(state, other)
                for x, y in ((s, t), (s, mp2), (mp, t)):
                    check((x == y) == want, "%s: %r == %r is %r", what, x, y, x == y)
                    check((x != y) == (not want), "%s: %r != %r", what, x, y)


def history(case):
    w = World(case["init"])
    w.views("at first")
    changes = 0
    for step, op in enumerate(case["ops"]):
        s, state, names, mp, p = w.items[op["on"]]
        kind, n = op["op"], op["name"]
        v = op["value"]
        raw = value(op["form"], v)
        what = "step %d (%s %s %r)" % (step, kind, n, v)
        undefined = w.undefined[op["on"]]
        if kind in ("del", "delproxy", "item", "attr", "proxy", "update"):
            undefined.discard(n)
        if kind in ("item", "attr", "proxy", "update"):
            def act():
                if kind == "item":
                    s[n] = raw
                elif kind == "attr":
                    setattr(s, n, raw)
                elif kind == "proxy":
                    mp[n] = raw
                elif op["form"]:
                    mp.update({n: raw})
                else:
                    mp.update(**{n: raw})
            if n in FIXED:
                with raising(errors.ImmutableFieldError, what):
                    act()
            elif n == "v" and v is not None and v % 2:
                with raising(errors.ValidationError, what):
                    act()
            else:
                act()
                changes += 1
                state[n] = v
                got = getattr(s, n)
                check(got is raw, "%s: %r was stored for %r", what, got, raw)
        elif kind == "many":
            new = {k: value(op["form"], x) for k, x in op["many"].items()}
            mp.update(new)
            state.update(op["many"])
            undefined.difference_update(new)
            changes += len(new)
        elif kind == "undefine":
            # It's as if it had never been set.
            if n not in FIXED and n != "v":
                if op["form"] == 0:
                    setattr(s, n, fields.UNDEFINED)
                elif op["form"] == 1:
                    s[n] = fields.UNDEFINED
                else:
                    mp[n] = fields.UNDEFINED
                state.pop(n, None)
                undefined.add(n)
                changes += 1
        elif kind == "del":
            del s[n]
            state.pop(n, None)
            changes += 1
        elif kind == "delproxy":
            del mp[n]
            state.pop(n, None)
            changes += 1
        elif kind == "pop":
            if n in state:
                eq(plain(mp.pop(n)), state.pop(n), what)
                changes += 1
        elif kind == "popdefault":
            if n in state:
                eq(plain(mp.pop(n, 99)), state.pop(n), what)
                changes += 1
        elif kind == "popitem":
            if state:
                k, x = mp.popitem()
                check(k in state, "%s: %r wasn't set", what, k)
                eq(plain(x), state.pop(k), what)
                changes += 1
            else:
                with raising(KeyError, what):
                    mp.popitem()
        elif kind == "setdefault":
            if n in state:
                eq(plain(mp.setdefault(n, 99)), state[n], what)
        elif kind == "clear":
            mp.clear()
            state.clear()
            changes += 1
        elif kind == "unknown":
            bad = op["unknown"]
            for f in (lambda: s[bad], lambda: s.__setitem__(bad, 1),
                      lambda: s.__delitem__(bad), lambda: mp[bad], lambda: p[bad],
                      lambda: mp.__setitem__(bad, 1), lambda: mp.__delitem__(bad),
                      lambda: mp.pop(bad), lambda: mp.update({bad: 1}),
                      lambda: mp.setdefault(bad, 1)):
                with raising(KeyError, what):
                    f()
            check(mp.pop(bad, 42) == 42, "%s: pop() with a default", what)
            if bad and bad != "__values__":
                with raising(errors.UnexpectedValueError, what):
                    type(s)(**{bad: 1})
                with raising(errors.UnexpectedValueError, what):
                    type(s)(**{**{k: x for k, x in mp.items()}, bad: None})
        elif kind == "copy":
            # A new struct with the same values is equal, and takes its place.
            new = type(s)(**mp)
            check(new == s and s == new, "%s: the copy differs", what)
            w.items[op["on"]] = (new, dict(state), names, MutableStructMappingProxy(new),
                                 StructMappingProxy(new))
            undefined.clear()
        elif kind == "refuse":
            # read-only proxies can't be changed
            for f in (lambda: p.__setitem__(n, 1), lambda: p.__delitem__(n),
                      lambda: p.update({}), lambda: p.clear(), lambda: p.pop(n)):
                with raising(AttributeError, what):
                    f()
        elif kind == "partial":
            # the update stops at what's refused
            new = {"a": 3, **({"k": 9} if op["form"] else {"nope": 1}), "b": 4}
            with raising((KeyError, errors.ImmutableFieldError), what):
                mp.update(new)
            state["a"] = 3
            undefined.discard("a")
        w.views(what)
    return changes > 1


@st.composite
def _history(draw):
    g = gen.Gen(draw, gen.opts())

    def val(n):
        if n == "t":
            return draw(st.sampled_from([None, "", "x", "é", "N"]))
        if n in ("arr", "w"):
            return draw(st.lists(st.integers(0, 255), max_size=3))
        if n == "sub":
            return {"x": g.int(0, 3), "y": g.pick(["q", "", "z"])}
        if n == "d":
            return g.pick([b"ab", b"\0\0"])
        if n == "b":
            return g.pick([0, 7, 65535])
        if n == "v":
            return g.pick([0, 2, -4, 1, None, 3])
        return g.pick([0, 1, 5, 6, 9, 255])

    def ok(n):
        v = val(n)
        return v - 1 if n == "v" and v and v % 2 else v

    init = []
    shared = {n: (g.int(0, 2), ok(n)) for n in NAMES if g.chance(3)}
    for i in range(3):
        if g.chance(4):
            init.append(dict(shared))
        else:
            init.append({n: (g.int(0, 2), ok(n)) for n in NAMES if g.chance(3)})
    ops = []
    for _ in range(g.int(1, 14)):
        kind = g.pick(["item", "attr", "proxy", "update"] * 3 + [
            "many", "del", "delproxy", "pop", "popdefault", "popitem", "setdefault",
            "clear", "unknown", "copy", "refuse", "partial", "undefine", "undefine"])
        n = g.pick(NAMES)
        ops.append({
            "op": kind, "on": g.int(0, 2), "name": n, "value": val(n), "form": g.int(0, 2),
            "many": {m: ok(m) for m in NAMES if m not in FIXED and g.chance(2)}
            if kind == "many" else {}, "unknown": g.pick(UNKNOWN)})
    return {"init": init, "ops": ops}


# --- equality -------------------------------------------------------------------


def equality(case):
    """Structs with the same set values are equal, and no others."""
    sut = Sut(case)
    s, ctx = sut.schema, sut.ctx
    values, other = case["values"], case["other"]
    a = [sut.make(values, h) for h in (0, 1, 2, 3)]
    b = spec.Builder().make(s, values, 1, ctx)   # of another class
    c = type("Kid", (sut.cls,), {})(**sut.builder.kwargs(s, values, 0, ctx))
    full = not any(True for f in ref.all_fields(s) for _ in gen.substructs(f))
    if full:
        group = a + [b, c]
    else:
        group = [sut.make(values, 0), sut.make(values, 0), c]
        inst = [sut.make(values, 1), sut.make(values, 1), b]
        for x in inst:
            for y in inst:
                check(x == y and not x != y, "%r differs from %r", x, y)
    for x in group:
        for y in group + [MutableStructMappingProxy(y) for y in group]:
            check(x == y and not x != y, "%r differs from %r", x, y)
            check(y == x and not y != x, "%r differs from %r", y, x)
    kw = sut.builder.kwargs(s, values, 0, ctx)
    x = sut.make(values, 0)
    check(x == kw and kw == x, "%r differs from %r", x, kw)
    # One difference
    n = case["name"]
    kw2 = {**kw, n: other}
    differs = not (n in values and norm(values[n]) == norm(other))
    y = sut.cls(**kw2)
    for p, q in ((x, y), (y, x), (x, kw2), (kw2, x)):
        check((p == q) == (not differs), "%r == %r is %r", p, q, p == q)
        check((p != q) == differs, "%r != %r is %r", p, q, p != q)
    if n in values:
        kw3 = {k: v for k, v in kw.items() if k != n}
        z = sut.cls(**kw3)
        for p, q in ((x, z), (z, x), (x, kw3), (kw3, x)):
            check(not p == q and p != q, "%r equals %r", p, q)
        del y[n]
        check(y == z and z == kw3, "%r differs from %r after deleting %r", y, z, n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        check((x == fields.UNDEFINED) == (not values), "comparison to UNDEFINED")
    return bool(values)


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return v


# --- assembly -------------------------------------------------------------------


def assembly(case):
    """Set field by field, through any view and in any order: all the same."""
    sut = Sut(case)
    s, ctx, values = sut.schema, sut.ctx, case["values"]
    kw = sut.builder.kwargs(s, values, case["how"], ctx)
    names = list(kw)
    random.Random(case["order"]).shuffle(names)
    fixed = {f["name"] for f in ref.all_fields(s) if f.get("const") or f.get("computed")}
    inst = sut.cls(**{n: v for n, v in kw.items() if n in fixed})
    done = {n for n in kw if n in fixed}
    mp = MutableStructMappingProxy(inst)
    for i, n in enumerate(names):
        if n in fixed:
            continue
        way = case["ways"][i % len(case["ways"])]
        if way == "attr":
            setattr(inst, n, kw[n])
        elif way == "item":
            inst[n] = kw[n]
        elif way == "proxy":
            mp[n] = kw[n]
        elif way == "update":
            mp.update({n: kw[n]})
        else:
            inst[n] = kw[n]
            del inst[n]
            check(n not in set(inst) and n not in mp, "%s is still there", n)
            setattr(inst, n, kw[n])
        done.add(n)
        eq(sorted(n for n in inst), sorted(done), "iteration")
        check(inst[n] is kw[n] and getattr(inst, n) is kw[n] and mp[n] is kw[n],
              "reading %s", n)
        check(len(mp) == len(done), "the proxy's length")
    once = sut.cls(**kw)
    if not gen.uses_ctx(s):
        # Comparing nested structs evaluates conditions without a context.
        check(inst == once and once == inst, "%r differs from %r", inst, once)
    want = sut.bytes(values)
    eq_bytes(inst.to_bytes(ctx), want, "the bytes")
    eq_bytes(once.to_bytes(ctx), want, "the bytes when given at once")
    eq(plain(inst.to_dict(True, ctx)), plain(once.to_dict(True, ctx)), "to_dict()")
    for n in reversed(names):
        if n not in fixed:
            del inst[n]
    eq(sorted(n for n in inst), sorted(n for n in kw if n in fixed), "after deleting them all")
    mp.clear()
    check(not set(inst) and inst == {} and inst == sut.cls(), "after clear()")
    return len(done - fixed) > 1


def _other(g, c):
    s = c["schema"]
    f = g.pick(ref.all_fields(s))
    n = f["name"]
    env = {**c["values"]}
    for x in ref.all_fields(s):
        for k in ("default", "factory", "const"):
            if x.get(k) is not None:
                env.setdefault(x["name"], x[k][0])
    simple = f["k"] in ("int", "vli", "bytes", "str", "strz", "uuid")
    if simple and not isinstance(f.get("size"), list) and g.chance(6):
        v = g.value(f, env, c["ctx"])
    else:
        v = g.pick([None, 0, "x", b"x"])
    return {"name": n, "other": v}


SUBS = [
    Sub("history", _history(), history, n=1000),
    Sub("equality", gen.cases(gen.opts(ctx=False), extra=_other), equality, n=2000),
    Sub("assembly", gen.cases(gen.opts(), extra=lambda g, c: {
        "order": g.int(0, 99),
        "ways": [g.pick(["attr", "item", "proxy", "update", "twice"]) for _ in range(4)]}),
        assembly, n=2000),
]
