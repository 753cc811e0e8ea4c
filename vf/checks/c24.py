"""C24: serialization never changes structs, and failed operations leave no trace."""
import copy
import io
import pickle
import sys
import threading

import binobj
from binobj import decorators, errors, fields
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import INVALID, Sut, eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Histories of up to twelve operations over three instances of a generated struct:"
    " every way of dumping, sizing, converting, comparing, loading and reading; changes of"
    " values; and failing ones - streams that break after any number of bytes or reads,"
    " values that can't be dumped at any depth, truncated and oversized input, missing"
    " values, refused and unknown assignments, callbacks that raise. After each one every"
    " instance holds the very same objects with the same content and dumps to the bytes"
    " of an independent encoder. Also: mutation of everything handed in or out, loads and"
    " dumps nested in callbacks of others, and threads. Non-trivial: at least two"
    " operations, or a value with something mutable in it."
)


class Broken(OSError):
    pass


class Writer(io.RawIOBase):
    """Breaks when more than n bytes are written."""

    def __init__(self, n):
        self.n = n
        self.data = b""

    def writable(self):
        return True

    def write(self, b):
        if len(self.data) + len(b) > self.n:
            raise Broken("full")
        self.data += bytes(b)
        return len(b)


class Reader(io.BytesIO):
    """Breaks at the n-th read that's for something."""

    def __init__(self, data, n):
        super().__init__(data)
        self.left = n

    def read(self, size=-1):
        if size:
            self.left -= 1
            if self.left < 0:
                raise Broken("unreadable")
        return super().read(size)


def referenced(s):
    """Names of fields that others of the struct depend on."""
    out = set()

    def cond(c):
        if c[0] in ("mask", "gt"):
            out.add(c[1])
        for x in c[1:]:
            if isinstance(x, (list, tuple)):
                cond(x)

    for f in ref.all_fields(s):
        out |= {n for n, _ in gen.controllers(f)}
        if f.get("present"):
            cond(f["present"])
        if f.get("computed") and f["computed"][0] != "const":
            out.add(f["computed"][1])
        u = f["comp"] if f["k"] == "array" else f
        if u["k"] == "union" and u["by"][0] == "field":
            out.add(u["by"][1])
    return out


BAD = {"int": "size", "bytes": "size", "str": "size", "strz": "size"}


def leaves(s, values):
    """(path, field, bad value) of what can be replaced by something undumpable."""
    refs = referenced(s)
    for f in ref.all_fields(s):
        n = f["name"]
        if n in values and n not in refs and not f.get("computed") and not f.get("const"):
            for path, g in below(f, values[n]):
                yield (n, *path), g


def below(f, v):
    if v is None or v is ABSENT:
        return
    if f["k"] in BAD and isinstance(f.get("size"), int):
        yield (), f
    elif f["k"] == "array":
        for i, x in enumerate(v):
            for path, g in below(f["comp"], x):
                yield (i, *path), g
    elif f["k"] == "nested":
        for path, g in leaves(f["struct"], v):
            yield path, g


def bad_value(f, how):
    if f["k"] == "int":
        return 1 << (8 * f["size"]) if how & 1 or f["size"] > 8 else -(1 << 8 * f["size"])
    if f["k"] == "bytes":
        return b"x" * (f["size"] + 1 + (how & 1))
    return "a" * (f["size"] + 1)


def put(v, path, x):
    """A copy of v with x at a path."""
    v = copy.deepcopy(v)
    at = v
    for p in path[:-1]:
        at = at[p]
    at[path[-1]] = x
    return v


class World:
    def __init__(self, case):
        self.case = case
        self.sut = Sut(case)
        self.schema, self.ctx, self.cls = self.sut.schema, self.sut.ctx, self.sut.cls
        self.context = copy.deepcopy(self.ctx)
        self.names = [f["name"] for f in ref.all_fields(self.schema)]
        self.fixed = {f["name"] for f in ref.all_fields(self.schema)
                      if f.get("const") or f.get("computed")}
        self.items = [self.new(v, h) for v, h in zip(case["values"], case["hows"])]
        self.use_ctx = gen.uses_ctx(self.schema)

    def new(self, values, how):
        kw = self.sut.builder.kwargs(self.schema, values, how, self.ctx)
        given = dict(kw)
        inst = self.cls(**kw)
        return {"inst": inst, "values": values, "held": given,
                "was": {n: frozen(v) for n, v in given.items()},
                "bytes": self.sut.bytes(values)}

    def verify(self, what, dump=True):
        for i, it in enumerate(self.items):
            inst = it["inst"]
            w = "%s: instance %d" % (what, i)
            now = {n for n in inst}
            eq(sorted(now), sorted(it["held"]), w + ": the set fields")
            for n in now:
                check(inst[n] is it["held"][n], "%s: %s is another object", w, n)
                check(frozen(inst[n]) == it["was"][n], "%s: %s has changed: %s, was %s", w,
                      n, frozen(inst[n]), it["was"][n])
            if dump:
                eq_bytes(inst.to_bytes(self.ctx), it["bytes"], w + ": the bytes")
        check(self.ctx == self.context, "%s: the context has changed: %r", what, self.ctx)


def frozen(v):
    """All there is to see of a value, nested structs' set fields included."""
    if isinstance(v, binobj.Struct):
        return (type(v).__name__, sorted((n, frozen(v[n])) for n in v))
    if isinstance(v, dict):
        return ("dict", [(k, frozen(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frozen(x) for x in v])
    return repr(v)


def attempt(f, *allowed):
    """Errors allowed in reading something that needn't be there."""
    try:
        return f()
    except (errors.Error, KeyError, *allowed):
        return None


def history(case):
    w = World(case)
    cls, ctx, schema = w.cls, w.ctx, w.schema
    eof = gen.reads_to_eof(schema)
    w.verify("at first")
    n_ops = 0
    for step, op in enumerate(case["ops"]):
        it = w.items[op["on"]]
        inst, data = it["inst"], it["bytes"]
        other = w.items[op["other"]]
        kind, k = op["op"], op["k"]
        what = "step %d (%s)" % (step, kind)
        name = w.names[k % len(w.names)]
        n_ops += 1
        if kind == "dump":
            eq_bytes(inst.to_bytes(ctx), data, what)
            s = io.BytesIO()
            inst.to_stream(s, ctx)
            eq_bytes(s.getvalue(), data, what)
        elif kind == "look":
            for n in w.names:
                attempt(lambda: inst[n])
                attempt(lambda: getattr(inst, n))
            # There may be no context where one's needed.
            attempt(lambda: len(inst), TypeError)
            repr(inst), str(inst)
            attempt(lambda: bytes(inst), TypeError)
            for x in (other["inst"], it["values"], {}, None):
                attempt(lambda: inst == x, TypeError)
            attempt(lambda: inst.validate_contents(ctx))
        elif kind == "dict":
            for keep in (False, True):
                d1 = inst.to_dict(keep, ctx)
                d2 = inst.to_dict(keep, ctx)
                eq(plain(d1), plain(d2), what)
                scramble(d1)
                eq(plain(inst.to_dict(keep, ctx)), plain(d2), what + " after changing it")
        elif kind == "partial":
            s = io.BytesIO()
            inst.partial_dump(s, name, ctx)
            check(data.startswith(s.getvalue()), what)
        elif kind == "load":
            a = cls.from_bytes(data, ctx)
            b = cls.from_bytes(bytearray(data), ctx)
            want = plain(b)
            scramble(a)
            eq(plain(b), want, what + ": after changing another one")
            eq(plain(cls.from_bytes(data, ctx)), want, what + ": again")
            buf = bytearray(data)
            c = cls.from_bytes(buf, ctx)
            buf[:] = b"\xff" * len(buf)
            eq(plain(c), want, what + ": after changing the buffer")
            s = io.BytesIO(data)
            d = cls.from_stream(s, ctx)
            s.seek(0)
            s.write(b"\xff" * len(data))
            s.close()
            eq(plain(d), want, what + ": after changing the stream")
        elif kind == "read":
            s = io.BytesIO(data)
            x = plain(cls.get_field(s, name, ctx))
            check(s.tell() == 0, what)
            eq(plain(cls.get_field(s, name, ctx)), x, what)
            s = io.BytesIO(data)
            p = plain(cls.partial_load(s, name, ctx))
            s.seek(0)
            eq(plain(cls.partial_load(s, name, ctx)), p, what)
        elif kind == "become":
            # Other values, set one by one
            new = w.new(other["values"], op["how"])
            if set(new["held"]) & w.fixed or set(it["held"]) & w.fixed:
                continue
            for n in list(it["held"]):
                del inst[n]
            for n, v in new["held"].items():
                inst[n] = v
            w.items[op["on"]] = {**new, "inst": inst}
        elif kind == "replace":
            w.items[op["on"]] = w.new(other["values"], op["how"])
        elif kind == "full stream":
            n = k % (len(data) + 1)
            s = Writer(n)
            if n < len(data):
                with raising(Broken, what):
                    inst.to_stream(s, ctx)
            else:
                inst.to_stream(s, ctx)
            check(data.startswith(s.data), "%s: %r was written", what, s.data)
        elif kind == "broken stream":
            for n in range(k % 4, 40, 3):
                s = Reader(data, n)
                try:
                    got = cls.from_stream(s, ctx)
                except Broken:
                    for load in (lambda: cls.from_stream(Reader(data, n), ctx),
                                 lambda: cls.get_field(Reader(data, n), w.names[-1], ctx),
                                 lambda: cls.partial_load(Reader(data, n), None, ctx)):
                        attempt(load, Broken)
                    continue
                eq(plain(got), plain(cls.from_bytes(data, ctx)), what)
                break
        elif kind == "truncated" and not eof and data:
            n = k % len(data)
            for _ in range(2):
                with raising(INVALID, what):
                    cls.from_bytes(data[:n], ctx)
        elif kind == "excess" and not eof:
            with raising(errors.ExtraneousDataError, what):
                cls.from_bytes(data + b"\0", ctx)
        elif kind == "refused":
            for n in sorted(w.fixed):
                with raising(errors.ImmutableFieldError, what):
                    inst[n] = 1
            with raising(KeyError, what):
                inst["no such field"] = 1
            with raising(KeyError, what):
                del inst["no such field"]
            with raising(errors.UnexpectedValueError, what):
                cls(no_such_field=1)
            for f in (lambda: cls.get_field(io.BytesIO(data), "nope", ctx),
                      lambda: cls.partial_load(io.BytesIO(data), "nope", ctx)):
                with raising(ValueError, what):
                    f()
        elif kind == "missing":
            needed = [f["name"] for f in ref.all_fields(schema) if f["name"] in it["held"]
                      and f["name"] not in w.fixed]
            if not needed:
                continue
            n = needed[k % len(needed)]
            v = inst[n]
            del inst[n]
            try:
                want = w.sut.bytes({m: x for m, x in it["values"].items() if m != n})
            except ref.RefMissing:
                want = None
            except ref.RefInvalid:
                want = False
            if want is None:
                for _ in range(2):
                    with raising((errors.MissingRequiredValueError, KeyError), what):
                        inst.to_bytes(ctx)
            elif want is not False:
                eq_bytes(inst.to_bytes(ctx), want, what)
            inst[n] = v
        elif kind == "undumpable":
            spots = [x for x in leaves(schema, it["values"]) if x[0][0] not in w.fixed]
            if not spots:
                continue
            path, f = spots[k % len(spots)]
            values = put(it["values"], path, bad_value(f, k))
            try:
                want = w.sut.bytes(values)
            except ref.RefInvalid:
                want = None
            n = path[0]
            v = inst[n]
            inst[n] = w.sut.builder.kwargs(schema, values, op["how"], ctx)[n]
            if want is None:
                before = b""
                for m, part in w.sut.parts(it["values"]):
                    if m == n:
                        break
                    before += part or b""
                for _ in range(2):
                    s = io.BytesIO()
                    with raising(errors.SerializationError, what):
                        inst.to_stream(s, ctx)
                    eq_bytes(s.getvalue(), before, "%s: written before %r failed", what,
                             path)
                    s = io.BytesIO()
                    with raising(errors.SerializationError, what):
                        inst.partial_dump(s, n, ctx)
                    eq_bytes(s.getvalue(), before,
                             "%s: partially written before %r failed", what, path)
            else:
                eq_bytes(inst.to_bytes(ctx), want, what)
            inst[n] = v
        w.verify(what, dump=step % 3 == 2 or kind in ("undumpable", "missing", "become"))
    w.verify("at last")
    return n_ops > 1


def scramble(v):
    """Change everything that can be changed in a value."""
    if isinstance(v, binobj.Struct):
        for n in [n for n in v]:
            scramble(v[n])
            del v[n]
    elif isinstance(v, dict):
        for x in v.values():
            scramble(x)
        v.clear()
        v["scrambled"] = 1
    elif isinstance(v, list):
        for x in v:
            scramble(x)
        v[:] = ["scrambled"] * 3


OPS = ["dump", "look", "dict", "partial", "load", "read", "become", "replace",
       "full stream", "broken stream", "truncated", "excess", "refused", "missing",
       "undumpable", "undumpable"]


def _ops(g, c):
    return {
        "hows": [g.int(0, 3) for _ in c["values"]],
        "ops": [{"op": g.pick(OPS), "on": g.int(0, 2), "other": g.int(0, 2),
                 "k": g.int(0, 300), "how": g.int(0, 3)} for _ in range(g.int(1, 12))],
    }


# --- loads and dumps within others ---------------------------------------------


class Nesting(spec.Log):
    """Does something else whenever a callback is called."""

    def __init__(self):
        self.calls = []
        self.act = None
        self.depth = 0
        self.count = 0

    def add(self, *args):
        self.count += 1
        if self.act is None or self.depth > 1 or self.count > 200:
            return
        self.depth += 1
        try:
            self.act()
        finally:
            self.depth -= 1


class Busy(io.BytesIO):
    """A stream that does something else whenever it's read or written."""

    def __init__(self, log, data=b""):
        super().__init__(data)
        self.log = log

    def read(self, n=-1):
        self.log.add("read")
        out = super().read(n)
        self.log.add("read")
        return out

    def write(self, b):
        self.log.add("write")
        return super().write(b)


def reentrant(case):
    log = Nesting()
    sut = Sut(case, log)
    ctx, cls = sut.ctx, sut.cls

    def once(items):
        for x in items:
            log.add("item")
            yield x

    sut.builder.once = once
    rows = [(v, sut.bytes(v)) for v in case["values"]]
    insts = [sut.make(v) for v, _ in rows]
    want = [plain(cls.from_bytes(d, ctx)) for _, d in rows]
    for i, (v, d) in enumerate(rows):
        eq(want[i], ref.dec_struct(sut.schema, d, 0, ctx)[0], "loading")

    def act():
        j = log.count % len(rows)
        kind = (log.count // 3 + log.depth) % 5
        if kind == 0:
            eq_bytes(insts[j].to_bytes(ctx), rows[j][1], "dumping within another operation")
        elif kind == 1:
            eq(plain(cls.from_bytes(rows[j][1], ctx)), want[j],
               "loading within another operation")
        elif kind == 2:
            attempt(lambda: cls.from_bytes(rows[j][1][:3], ctx), *INVALID)
        elif kind == 3:
            if log.depth % 2:
                insts[j].to_dict(True, ctx)
            else:
                eq_bytes(sut.make(rows[j][0], 4 + j % 2).to_bytes(ctx), rows[j][1],
                         "dumping iterators within another operation")
        else:
            n = sut.names()[-1]
            cls.get_field(io.BytesIO(rows[j][1]), n, ctx)

    log.act = act
    for i, (v, d) in enumerate(rows):
        log.count = case["start"]
        eq_bytes(insts[i].to_bytes(ctx), d, "dumping")
        log.count = case["start"]
        eq(plain(cls.from_bytes(d, ctx)), want[i], "loading")
        log.count = case["start"]
        eq_bytes(sut.make(v, 4 + i % 2).to_bytes(ctx), d, "dumping iterators")
        log.count = case["start"]
        s = Busy(log)
        insts[i].to_stream(s, ctx)
        eq_bytes(s.getvalue(), d, "dumping to a busy stream")
        log.count = case["start"]
        eq(plain(cls.from_stream(Busy(log, d), ctx)), want[i], "loading from a busy stream")
        log.count = case["start"]
        s = io.BytesIO(b"".join(x for _, x in rows))
        for j in range(len(rows)):
            if gen.reads_to_eof(sut.schema):
                break
            eq(plain(cls.from_stream(s, ctx)), want[j], "loading one after another")
    return log.count > case["start"]


def threads(case):
    """The same at the same time."""
    sut = Sut(case)
    ctx, cls = sut.ctx, sut.cls
    rows = [(v, sut.bytes(v)) for v in case["values"]]
    shared = sut.make(rows[0][0])
    failures = []
    barrier = threading.Barrier(len(rows))

    def work(i):
        try:
            v, d = rows[i]
            mine = sut.make(v)
            barrier.wait(20)
            for _ in range(12):
                eq_bytes(mine.to_bytes(ctx), d, "dumping")
                eq_bytes(sut.make(v, 4).to_bytes(ctx), d, "dumping iterators")
                eq_bytes(shared.to_bytes(ctx), rows[0][1], "dumping the shared one")
                eq(plain(cls.from_bytes(d, ctx)), ref_of[i], "loading")
                eq(plain(mine.to_dict(True, ctx)), dicts[i], "to_dict()")
        except Exception as e:
            failures.append(e)

    ref_of = [ref.dec_struct(sut.schema, d, 0, ctx)[0] for _, d in rows]
    dicts = [plain(sut.make(v).to_dict(True, ctx)) for v, _ in rows]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(rows))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if failures:
        raise failures[0]
    return True


# --- callbacks that raise --------------------------------------------------------


class Oops(Exception):
    pass


OOPS = [Oops, KeyError, ValueError, EOFError, TypeError, AttributeError, IndexError,
        OSError, StopIteration, OverflowError, MemoryError, RuntimeError]


class Raising(spec.Log):
    def __init__(self):
        self.calls = []
        self.at = None
        self.exc = Oops

    def add(self, *args):
        self.calls.append(args[0])
        if self.at is not None and len(self.calls) > self.at:
            raise self.exc


def raising_callbacks(case):
    """A condition, decider or halt check that raises: the error's passed on, and
    neither the struct nor later operations are affected."""
    log = Raising()
    log.exc = OOPS[case["oops"]]
    sut = Sut(case, log)
    ctx, cls, values = sut.ctx, sut.cls, case["values"]
    data = sut.bytes(values)
    inst = sut.make(values)
    held = {n: (inst[n], frozen(inst[n])) for n in inst}
    loaded = plain(cls.from_bytes(data, ctx))
    for what, act in (
        ("dumping", lambda s: inst.to_stream(s, ctx)),
        ("loading", lambda s: cls.from_bytes(data, ctx)),
        ("get_field", lambda s: cls.get_field(io.BytesIO(data), sut.names()[-1], ctx)),
        ("partial dump", lambda s: inst.partial_dump(s, None, ctx)),
        ("to_dict", lambda s: inst.to_dict(True, ctx)),
    ):
        log.at = None
        log.calls.clear()
        act(io.BytesIO())
        n = len(log.calls)
        for at in range(min(n, 12)):
            log.at = at
            log.calls.clear()
            s = io.BytesIO()
            with raising(log.exc, "%s with a callback that raises", what):
                act(s)
            check(data.startswith(s.getvalue()), "%r was written", s.getvalue())
        log.at = None
        eq(sorted(n for n in inst), sorted(held), "the set fields after %s" % what)
        for n, (v, f) in held.items():
            check(inst[n] is v and frozen(v) == f, "%s changed by %s", n, what)
        eq_bytes(inst.to_bytes(ctx), data, "the bytes after %s" % what)
        eq(plain(cls.from_bytes(data, ctx)), loaded, "loading after %s" % what)
    return bool(log.calls)


# --- what's handed in and out ----------------------------------------------------


def sharing(case):
    sut = Sut(case)
    ctx, cls, values = sut.ctx, sut.cls, case["values"]
    b = sut.builder
    data = sut.bytes(values)
    # The caller's arguments
    for how in (0, 1, 2, 3):
        kw = b.kwargs(sut.schema, values, how, ctx)
        before = frozen(kw)
        inst = cls(**kw)
        inst.to_bytes(ctx), inst.to_dict(True, ctx), inst.to_dict(False, ctx)
        attempt(lambda: len(inst), TypeError)
        inst.partial_dump(io.BytesIO(), None, ctx)
        check(frozen(kw) == before, "the values given have changed: %s, were %s",
              frozen(kw), before)
        for n in list(kw):
            del kw[n]
        eq_bytes(inst.to_bytes(ctx), data, "after clearing the dictionary of arguments")
        # What comes out can be changed
        scramble(inst.to_dict(True, ctx))
        scramble(inst.to_dict(False, ctx))
        eq_bytes(inst.to_bytes(ctx), data, "after changing what to_dict() returned")
    # Two instances of the same arguments, one of which changes
    kw = b.kwargs(sut.schema, values, 0, ctx)
    one, two = cls(**kw), cls(**kw)
    for n in [n for n in one]:
        del one[n]
    eq_bytes(two.to_bytes(ctx), data, "after emptying another instance")
    # Loaded structs are independent
    full = plain(cls.from_bytes(data, ctx))
    x, y = cls.from_bytes(data, ctx), cls.from_bytes(data, ctx)
    mutable(x, y)
    scramble(x)
    eq(plain(y), full, "after changing another loaded struct")
    eq(plain(cls.from_bytes(data, ctx)), full, "loading after changing a loaded struct")
    # init_kwargs are copied
    env = ref.dec_struct(sut.schema, data, 0, ctx)[0]
    give = {n: b.arg(f, env[n], 0, env, ctx) for f in ref.all_fields(sut.schema)
            for n in [f["name"]] if n in env and n in case["init"]}
    before = frozen(give)
    z = cls.from_bytes(data, ctx, init_kwargs=give)
    check(frozen(give) == before, "init_kwargs have changed")
    scramble(give)
    eq(plain(z), full, "after changing init_kwargs")
    return any(isinstance(v, (list, dict)) for v in values.values())


def mutable(x, y):
    """No mutable objects are shared."""
    if isinstance(x, binobj.Struct):
        check(x is not y, "a nested struct is shared")
        for n in x:
            mutable(x[n], y[n])
    elif isinstance(x, list):
        check(x is not y, "a list is shared")
        for p, q in zip(x, y):
            mutable(p, q)


def pickled(sut):
    """Copies by pickling, which needs to find the classes."""
    def copied(x):
        for cls, _ in list(sut.builder.memo.values()):
            setattr(sys.modules[cls.__module__], cls.__qualname__, cls)
        return pickle.loads(pickle.dumps(x))

    return copied


def copies(case):
    """Copies of a struct are equal to it, and independent."""
    sut = Sut(case)
    ctx, cls, values = sut.ctx, sut.cls, case["values"]
    data = sut.bytes(values)
    made = lambda: sut.make(values)
    read = lambda: cls.from_bytes(data, ctx)
    part = lambda: cls.partial_load(io.BytesIO(data), case["upto"], ctx)
    for what, get in (("made", made), ("loaded", read), ("part", part)):
        for way, dup in (("copy", copy.copy), ("deepcopy", copy.deepcopy),
                         ("pickle", pickled(sut))):
            w = "%s of a struct (%s)" % (way, what)
            inst = get()
            was = plain(inst)
            dump = attempt(lambda: inst.to_bytes(ctx), errors.SerializationError, KeyError,
                           TypeError)
            new = dup(inst)
            check(type(new) is cls, "%s is a %s", w, type(new))
            check(new is not inst, "%s is the same object", w)
            eq(plain(new), was, w)
            eq(plain(inst), was, w + ": the original")
            if what == "made":
                eq_bytes(new.to_bytes(ctx), data, w)
            eq(attempt(lambda: new.to_bytes(ctx), errors.SerializationError, KeyError,
                       TypeError), dump, w + ": the dump")
            # Attributes that aren't fields are copied like those of any object.
            inst.zz_note = note = ["x"]
            noted = dup(inst)
            check(noted.zz_note == note and (noted.zz_note is note) == (way == "copy"),
                  "%s: the attribute is %r", w, noted.zz_note)
            if way != "copy":
                mutable(inst, new)
                scramble(new)
                eq(plain(inst), was, w + ": the original after changing the copy's values")
                new = dup(inst)
            for n in list(was):
                del new[n]
            eq(plain(inst), was, w + ": the original after emptying the copy")
            check(not set(new), "%s isn't empty", w)
            new = dup(inst)
            for n in list(was):
                del inst[n]
            eq(plain(new), was, w + " after emptying the original")
    return bool(values)


# --- fields on their own ----------------------------------------------------------


def alone(case):
    """A field's dump that fails writes nothing, and the field works as before."""
    f, values = case["f"], case["v"]
    b = spec.Builder()
    fld = b.field(f)
    v = values
    data = ref.enc_value(f, v, {}, None)
    spots = list(below(f, v))
    eq_bytes(fld.to_bytes(b.arg(f, v)), data, "the bytes")
    for i, (path, g) in enumerate(spots[:8]):
        bad = put([v], (0, *path), bad_value(g, i))[0]
        try:
            ref.enc_value(f, bad, {}, None)
            continue
        except ref.RefInvalid:
            pass
        s = io.BytesIO(b"12345")
        s.seek(2)
        with raising(errors.SerializationError, "dumping %r", bad):
            fld.to_stream(s, b.arg(f, bad, case["how"]))
        eq_bytes(s.getvalue(), b"12345", "%r was refused", bad)
        check(s.tell() == 2, "the stream moved to %d", s.tell())
        eq_bytes(fld.to_bytes(b.arg(f, v)), data, "the bytes after a failure")
        eq(plain(fld.from_bytes(data)), ref.dec_value(f, data, 0, {}, None)[0],
           "loading after a failure")
    # The same object, changed in between
    for w in case["more"]:
        old = b.arg(f, v, case["how"])
        data = ref.enc_value(f, v, {}, None)
        eq_bytes(fld.to_bytes(old), data, "the bytes of a value")
        turn(f, old, b.arg(f, w, case["how"]))
        again = ref.enc_value(f, w, {}, None)
        eq_bytes(fld.to_bytes(old), again, "the bytes of a value that was changed")
        s = io.BytesIO()
        fld.to_stream(s, old)
        eq_bytes(s.getvalue(), again, "the bytes of a value that was changed")
        v = w
    # What's loaded again isn't what was loaded before
    data = ref.enc_value(f, v, {}, None)
    want = ref.dec_value(f, data, 0, {}, None)[0]
    one = fld.from_bytes(data)
    scramble(one)
    two = fld.from_stream(io.BytesIO(data))
    eq(plain(two), want, "loading again after changing what was loaded")
    return bool(spots)


def turn(f, a, b):
    """Make the value a the same as b, without replacing it."""
    if isinstance(a, list):
        if a and len(a) == len(b) and isinstance(a[0], (dict, list, binobj.Struct)):
            for x, y in zip(a, b):
                turn(f.get("comp"), x, y)
        else:
            a[:] = b
    elif isinstance(a, binobj.Struct):
        for n in [n for n in a]:
            del a[n]
        computed = {g["name"] for g in ref.all_fields(f["struct"]) if g.get("computed")}
        for n in [n for n in b if n not in computed]:
            a[n] = b[n]
    elif isinstance(a, dict):
        a.clear()
        a.update(b)


@st.composite
def _alone(draw):
    g = gen.Gen(draw, gen.opts(bom=False, ctx=False, cond=False, null=False, const=False))
    comp = g.array_item(2)
    kind = g.int(0, 2)
    if kind == 0:
        f = {"k": "array", "comp": comp, "count": g.int(1, 4)}
    elif kind == 1:
        f = {"k": "nested", "struct": g.schema(2, top=False)}
    else:
        f = {"k": "array", "comp": {"k": "nested", "struct": g.schema(1, top=False)},
             "count": g.int(1, 3)}
    return {"f": f, "v": g.value(f, {}, None), "how": g.int(0, 2),
            "more": [g.value(f, {}, None) for _ in range(g.int(0, 2))]}


def _init(g, c):
    names = [f["name"] for f in ref.all_fields(c["schema"]) if not f.get("const")]
    return {"init": [n for n in names if g.chance(4)]}


SUBS = [
    Sub("history", gen.cases(gen.opts(bom=False), n_values=3, extra=_ops), history, n=1800),
    Sub("reentrant", gen.cases(gen.opts(more=("cond", "union", "halt"), depth=1),
                               n_values=2, extra=lambda g, c: {"start": g.int(0, 14)}),
        reentrant, n=800),
    Sub("callbacks", gen.cases(gen.opts(more=("cond", "union", "halt"), depth=1),
                                extra=lambda g, c: {"oops": g.int(0, len(OOPS) - 1)}),
        raising_callbacks, n=1000),
    Sub("threads", gen.cases(gen.opts(depth=1), n_values=4), threads, n=60),
    Sub("sharing", gen.cases(gen.opts(more=("array", "nested")), extra=_init), sharing, n=1500),
    Sub("copies", gen.cases(extra=lambda g, c: {
        "upto": g.pick([f["name"] for f in ref.all_fields(c["schema"])])}), copies, n=800),
    Sub("alone", _alone(), alone, n=1200),
]
