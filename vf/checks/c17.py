"""C17: no value a validator rejects can be loaded, dumped or assigned."""
import io

from binobj import decorators
from binobj import errors
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import dump_stream, eq, eq_bytes
from ..runner import Sub
from ..values import ABSENT, Violation, check, plain, same

RULE = (
    "Trees of one to five struct classes (both declaration styles) with validators given as"
    " arguments, as methods of one or several fields (inherited ones too) and of structs,"
    " each rejecting certain values; every class is loaded, dumped, partially loaded and"
    " dumped, read and assigned to, before and after its relatives are declared. Oracle:"
    " the set of validators that apply to a class and that reject one of the values, and"
    " the recorded calls. Non-trivial: at least one validator rejects something, or two"
    " apply."
)


# What validators return doesn't matter.
RESULTS = [None, True, False, 0, "no", [], NotImplemented]


class Reject(Exception):
    """Nothing to do with binobj."""

    def __init__(self, vid):
        super().__init__(vid)
        self.vid = vid


class World:
    """The classes of a case."""

    def __init__(self, case):
        self.case = case
        self.calls = []
        self.schemas = []
        self.builder = spec.Builder()
        self.exc = {"reject": Reject, "value": ValueError,
                    "validation": errors.ValidationError}[case["exc"]]

    def raise_(self, vid):
        if self.exc is Reject:
            e = Reject(vid)
        elif self.exc is ValueError:
            e = ValueError(vid)
        else:
            e = errors.ValidationError("no", field="x", value=0)
        e.vid = vid
        raise e

    def arg(self, v, name):
        def validator(field, value):
            self.calls.append((v["id"], name, field.name, plain(value), None))
            if any(same(plain(value), b) for b in v["bad"]):
                self.raise_(v["id"])
            return RESULTS[v.get("out", 0)]
        return validator

    def method(self, v):
        world = self

        @decorators.validates(*v["names"])
        def validator(self, field, value):
            world.calls.append((v["id"], None, field.name, plain(value), self))
            if any(same(plain(value), b) for b in v["bad"]):
                world.raise_(v["id"])
            return RESULTS[v.get("out", 0)]
        return validator

    def struct(self, v):
        world = self

        @decorators.validates_struct
        def validator(self, values):
            value = plain(values[v["names"][0]])
            world.calls.append((v["id"], None, v["names"][0], value, self))
            if any(same(value, b) for b in v["bad"]):
                world.raise_(v["id"])
            return RESULTS[v.get("out", 0)]
        return validator

    def declare(self, i):
        c = self.case["classes"][i]
        fs = []
        for f in c["fields"]:
            vs = [self.arg(v, f["name"]) for v in c["validators"]
                  if v["kind"] == "arg" and f["name"] in v["names"]]
            f = dict(f)
            if vs:
                f["validate"] = vs[0] if len(vs) == 1 and c["single"] else vs
            fs.append(f)
        s = {"fields": fs, "style": c["style"], "ns": {}, "name": "C%d" % i}
        for v in c["validators"]:
            if v["kind"] != "arg":
                s["ns"]["check_%d" % v["id"]] = getattr(self, v["kind"])(v)
        if c["base"] is not None:
            s["base"] = self.schemas[c["base"]]
        self.schemas.append(s)
        return self.builder.struct(s)

    def applicable(self, i):
        out = []
        while i is not None:
            c = self.case["classes"][i]
            out += c["validators"]
            i = c["base"]
        return out

    def rejecting(self, i, env, kinds, names=None):
        """Ids of the validators that reject one of the values."""
        out = set()
        for v in self.applicable(i):
            if v["kind"] in kinds:
                for n in v["names"]:
                    if (names is None or n in names) and env[n] is not ABSENT:
                        if any(same(env[n], b) for b in v["bad"]):
                            out.add(v["id"])
        return out

    def attempt(self, what, fn, rejects, must=None):
        """Run fn; it has to be rejected by one of `rejects` if `must`.

        must: None - exactly if there's one; True/False otherwise; "may" - either.
        Returns (done, result).
        """
        must = bool(rejects) if must is None else must
        self.calls.clear()
        try:
            out = fn()
        except Exception as e:
            vid = getattr(e, "vid", None)
            if vid is None or type(e) is not self.exc:
                raise
            check(vid in rejects, "%s was rejected by validator %s; only %s apply", what,
                  vid, sorted(rejects))
            return False, None
        check(must != True, "%s wasn't rejected by any of the validators %s", what,
              sorted(rejects))
        return True, out

    def called(self, i, env, kinds, what, cls, names=None):
        """All the validators that apply ran on the right values, and no others."""
        seen = set()
        known = {v["id"]: v for v in self.applicable(i)}
        for vid, own, name, value, this in self.calls:
            check(vid in known, "%s: validator %s doesn't belong to class %d", what, vid, i)
            check(own is None or own == name, "%s: the validator of %r got %r", what, own,
                  name)
            check(name in known[vid]["names"], "%s: validator %s was given %r", what, vid,
                  name)
            check(env[name] is not ABSENT, "%s: validator %s was given the absent %r", what,
                  vid, name)
            eq(value, env[name], "%s: what validator %s was given" % (what, vid))
            check(this is None or type(this) is cls, "%s: validator %s of a %s", what, vid,
                  type(this))
            seen.add((vid, name))
        for v in known.values():
            if v["kind"] in kinds:
                for n in v["names"]:
                    if env[n] is not ABSENT and (names is None or n in names):
                        check((v["id"], n) in seen, "%s: validator %s didn't run on %r", what,
                              v["id"], n)

    def exercise(self, i, values):
        s = self.schemas[i]
        cls = self.builder.struct(s)
        env = ref.effective(s, values, None)
        parts = ref.enc_parts(s, values)
        data = b"".join(b or b"" for _, b in parts)
        loaded, _ = ref.dec_all(s, data)
        every = ("arg", "method", "struct")
        rejects = self.rejecting(i, env, every)
        inst = self.builder.make(s, values)
        for what, dump in (
            ("to_bytes", lambda st_: st_.write(inst.to_bytes())),
            ("to_stream", inst.to_stream),
            ("bytes()", lambda st_: st_.write(bytes(inst))),
        ):
            stream = io.BytesIO()
            ok, _ = self.attempt(what, lambda: dump(stream), rejects)
            if ok:
                eq_bytes(stream.getvalue(), data, what)
                self.called(i, env, every, what, cls)
            else:
                eq_bytes(stream.getvalue(), b"", "written by the rejected %s" % what)
        for what, load in (
            ("from_bytes", lambda: cls.from_bytes(data)),
            ("from_stream", lambda: cls.from_stream(io.BytesIO(data))),
        ):
            ok, got = self.attempt(what, load, self.rejecting(i, loaded, every))
            if ok:
                self.called(i, loaded, every, what, cls)
                eq(plain(got), ref.kept(s, loaded), what)
        names = [f["name"] for f in ref.all_fields(s)]
        for k, name in enumerate(names):
            lead = names[:k + 1]
            rej = self.rejecting(i, loaded, every, lead)
            arg = self.rejecting(i, loaded, ("arg",), lead)
            own = self.rejecting(i, loaded, ("arg",), [name])
            may = "may" if rej - arg and not arg else None
            ok, got = self.attempt(
                "partial_load", lambda: cls.partial_load(io.BytesIO(data), name),
                rej if not arg else rej | arg, may)
            if ok:
                self.called(i, loaded, ("arg",), "partial_load", cls, lead)
            self.attempt("get_field(%r)" % name,
                         lambda: cls.get_field(io.BytesIO(data), name),
                         rej, True if own else "may" if rej else False)
            rej = self.rejecting(i, env, every, lead)
            arg = self.rejecting(i, env, ("arg",), lead)
            may = "may" if rej - arg and not arg else None
            stream = io.BytesIO()
            self.attempt("partial_dump", lambda: inst.partial_dump(stream, name), rej, may)
        # Assignments, to a struct that's fine or not
        for f in ref.all_fields(s):
            n = f["name"]
            if f.get("const") or env[n] is ABSENT:
                continue
            value = self.builder.arg(f, env[n])
            rej = self.rejecting(i, env, every, [n])
            arg = self.rejecting(i, env, ("arg",), [n])
            for what, put in (
                ("attribute", lambda x: setattr(x, n, value)),
                ("item", lambda x: x.__setitem__(n, value)),
            ):
                for old in ({}, values):
                    x = self.builder.make(s, old)
                    before = {k: plain(x[k]) for k in x}
                    ok, _ = self.attempt("assigning the %s %r" % (what, n), lambda: put(x),
                                         arg, bool(arg))
                    if ok:
                        eq(plain(x[n]), env[n], "assigned")
                        self.called(i, env, ("arg",), "assignment", cls, [n])
                    else:
                        eq({k: plain(x[k]) for k in x}, before,
                           "the struct after a rejected assignment")
        return bool(rejects) or len(self.applicable(i)) > 1


def tree(case):
    w = World(case)
    out = False
    for i in range(len(case["classes"])):
        w.declare(i)
        if i == 0:
            for v in case["values"][0]:
                w.exercise(0, v)
    for i in case["order"]:
        for v in case["values"][i]:
            out |= w.exercise(i, v)
    return out


def components(case):
    """Validators of array components and of nested structs."""
    w = World(case)
    bad, items = case["bad"], case["items"]
    v = {"id": 1, "bad": bad, "names": ["x"]}
    comp = {"k": "int", "size": 1, "signed": False}
    inner = {"fields": [{**comp, "name": "x"}], "ns": {}, "name": "Inner"}
    if case["where"] == "component":
        arr = {"k": "array", "name": "a", "count": len(items),
               "comp": {**comp, "validate": [w.arg(v, None)]}}
        vals = list(items)
    else:
        if case["where"] == "arg":
            inner["fields"][0]["validate"] = [w.arg(v, "x")]
        else:
            inner["ns"]["check"] = getattr(w, case["where"])(v)
        arr = {"k": "array", "name": "a", "count": len(items),
               "comp": {"k": "nested", "struct": inner}}
        vals = [{"x": x} for x in items]
    s = {"fields": [{**comp, "name": "p"}, arr, {**comp, "name": "q"}]}
    cls = w.builder.struct(s)
    values = {"p": 1, "a": vals, "q": 2}
    data = b"\1" + bytes(items) + b"\2"
    rejects = {1} if set(bad) & set(items) else set()
    stream = io.BytesIO()
    inst = w.builder.make(s, values, case["how"])
    ok, _ = w.attempt("dumping", lambda: inst.to_stream(stream), rejects)
    if ok:
        eq_bytes(stream.getvalue(), data, "dumped")
    else:
        check(b"\1".startswith(stream.getvalue()), "%r was written", stream.getvalue())
    ok, got = w.attempt("loading", lambda: cls.from_bytes(data), rejects)
    if ok:
        eq(plain(got), values, "loaded")
        eq(sorted({c[3] for c in w.calls}), sorted(set(items)), "the values seen in loading")
        check(len(w.calls) >= len(items), "the validator ran %d times", len(w.calls))
    w.attempt("partial_load", lambda: cls.partial_load(io.BytesIO(data), "q"), rejects)
    return bool(items)


# --- strategies ------------------------------------------------------------------


@st.composite
def _tree(draw):
    g = gen.Gen(draw, gen.opts(codecs=gen.PLAIN_CODECS))
    classes, vid = [], 0
    flat = []       # all the fields of each class
    for i in range(g.int(1, 5)):
        base = None if i == 0 or g.chance(1) else g.int(0, i - 1)
        fs = []
        for j in range(g.int(1, 3)):
            name = "f%d%s" % (i, "abc"[j])
            k = g.pick(["int", "int", "strz", "bytes", "array"])
            f = {"k": k, "name": name}
            if k == "int":
                f.update(size=g.pick([1, 2]), signed=False, endian="big")
                if g.chance(2):
                    f["null"] = ("default",)
                if g.chance(3):
                    f["default"] = [g.int(0, 3)]
            elif k == "bytes":
                f.update(size=1)
            elif k == "strz":
                f.update(encoding="utf-8")
            else:
                f.update(comp={"k": "int", "size": 1, "signed": False}, count=2)
            if j and g.chance(2):
                flags = [x for x in fs if x["k"] == "int" and not x.get("present")
                         and not x.get("null")]
                if flags:
                    f["present"] = ["mask", flags[0]["name"], 1]
            fs.append(f)
        flat.append((flat[base] if base is not None else []) + fs)
        vs = []
        for _ in range(g.int(0, 3)):
            kind = g.pick(["arg", "method", "method", "struct"])
            pool = fs if kind == "arg" else flat[i]
            names = [g.pick(pool)["name"]]
            if kind == "struct":
                pool = [f for f in pool if not f.get("present")]
                names = [g.pick(pool)["name"]]
            elif kind == "method" and g.chance(3):
                more = names + [g.pick(pool)["name"] for _ in range(g.int(1, 3))]
                names = list(dict.fromkeys(more))
            vs.append({"id": vid, "kind": kind, "names": names, "bad": [],
                       "out": g.int(0, len(RESULTS) - 1)})
            vid += 1
        classes.append({"base": base, "fields": fs, "validators": vs,
                        "style": g.pick(["assign", "assign", "pep526"]),
                        "single": g.chance(4)})
    values = []
    for i in range(len(classes)):
        s = {"fields": flat[i]}
        vals = []
        for _ in range(g.int(1, 2)):
            v = g.values(s)
            env = ref.effective(s, v, None)
            # What's not there must not be set, see DESIGN.md.
            vals.append({k: x for k, x in v.items() if env[k] is not ABSENT})
        values.append(vals)
    pool = {}
    for vals in values:
        for v in vals:
            for n, x in v.items():
                pool.setdefault(n, []).append(x)
    for c in classes:
        for v in c["validators"]:
            if g.chance(3):
                for n in v["names"]:
                    if pool.get(n):
                        v["bad"].append(g.pick(pool[n]))
    order = draw(st.permutations(range(len(classes))))
    return {"classes": classes, "values": values, "order": list(order),
            "exc": g.pick(["reject", "value", "validation"])}


_components = st.builds(
    lambda bad, items, where, how, exc: {"bad": bad, "items": items, "where": where,
                                         "how": how, "exc": exc, "classes": []},
    st.lists(st.integers(0, 5), max_size=1), st.lists(st.integers(0, 5), max_size=4),
    st.sampled_from(["component", "arg", "method", "struct"]), st.integers(0, 3),
    st.sampled_from(["reject", "value", "validation"]),
)

SUBS = [
    Sub("tree", _tree(), tree, n=2500),
    Sub("components", _components, components, n=1000),
]
