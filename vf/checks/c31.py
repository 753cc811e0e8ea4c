"""C31: operations interleaved in any way give what each gives by itself."""
import copy
import io
import os
import sys
import threading

import binobj
from binobj import decorators, errors, fields

from .. import gen, ref
from ..common import Sut, eq, eq_bytes
from ..runner import HarnessError, Sub
from ..values import check, plain

RULE = (
    "One to four operations of every kind (each way of dumping, loading, sizing, converting,"
    " comparing, copying and reading; failing ones; declaring subclasses), on structs of one"
    " class or one shared struct, are stopped after a generated number of lines or"
    " instructions of the library while others run: as a whole, and in threads that take"
    " turns by a generated schedule. Oracle: the result of each one is that of an independent"
    " encoder and decoder, or, for the others, of the same operation without interruption."
    " Non-trivial: at least one operation was stopped within the library."
)

HERE = os.path.dirname(os.path.abspath(binobj.__file__)) + os.sep
WAIT = 40
MANY = 80


# --- operations ------------------------------------------------------------------

DUMPS = ("bytes", "stream", "whole", "subclass", "iterators", "fresh")
KINDS = DUMPS + (
    "load", "load stream", "exact", "short", "partial load", "partial dump", "field",
    "alone", "len", "dict", "equal", "copy", "items", "default", "bad value", "bad name",
    "class size", "missing", "refused dump", "refused load",
)


class Task:
    """An operation on the values of one row, ready to be run."""

    def __init__(self, sut, op, rows, shared):
        self.sut, self.op = sut, op
        self.values, self.data = rows[op["row"] % len(rows)]
        self.shared = shared[op["row"] % len(rows)] if op["shared"] else None
        self.kind = op["op"]
        self.name = sut.names()[op["k"] % len(sut.names())]
        self.inst = self.shared
        self.row = op["row"] % len(rows)
        if self.inst is None:
            self.inst = sut.make(self.values, 4 if self.kind == "iterators" else op["how"])
        self.stream = io.BytesIO(self.data)
        self.result = None

    def run(self):
        try:
            self.result = ("=", self.go())
        except Exception as e:  # compared below
            f = getattr(e, "field", None)
            self.result = ("!", type(e).__name__, getattr(f, "name", f))

    def go(self):
        sut, kind, inst, name = self.sut, self.kind, self.inst, self.name
        cls, ctx, k = sut.cls, sut.ctx, self.op["k"]
        if kind == "bytes":
            return inst.to_bytes(ctx)
        if kind in ("stream", "iterators"):
            out = io.BytesIO()
            inst.to_stream(out, ctx)
            return out.getvalue()
        if kind == "whole":
            out = io.BytesIO()
            inst.partial_dump(out, None, ctx)
            return out.getvalue()
        if kind == "fresh":
            return sut.make(self.values, self.op["how"]).to_bytes(ctx)
        if kind == "subclass":
            sub = type("Sub", (cls,), {"extra_": fields.UInt8(const=7)})
            return sub(**sut.builder.kwargs(sut.schema, self.values, 0, ctx)).to_bytes(ctx)
        if kind == "load":
            return plain(cls.from_bytes(self.data, ctx))
        if kind == "load stream":
            out = plain(cls.from_stream(self.stream, ctx))
            return out, self.stream.tell()
        if kind == "exact":
            return plain(cls.from_bytes(self.data + b"\1", ctx, exact=False))
        if kind == "short":
            return plain(cls.from_bytes(self.data[:k % (len(self.data) + 1)], ctx))
        if kind == "partial load":
            out = plain(cls.partial_load(self.stream, name, ctx))
            return out, self.stream.tell()
        if kind == "partial dump":
            out = io.BytesIO()
            inst.partial_dump(out, name, ctx)
            return out.getvalue()
        if kind == "field":
            return plain(cls.get_field(self.stream, name, ctx)), self.stream.tell()
        if kind == "alone":
            f = getattr(cls, name)
            if f.present is not None and f.is_conditional:
                return None
            return f.to_bytes(inst[name], ctx, inst.to_dict(True, ctx))
        if kind == "len":
            return len(inst)
        if kind == "dict":
            return plain(inst.to_dict(True, ctx)), plain(inst.to_dict(False, ctx))
        if kind == "equal":
            return inst == sut.make(self.values, self.op["how"]), inst == {}
        if kind == "copy":
            return (copy.copy(inst).to_bytes(ctx), copy.deepcopy(inst).to_bytes(ctx))
        if kind == "items":
            return [(n, plain(inst[n])) for n in inst]
        if kind == "default":
            return plain(getattr(inst, name))
        if kind == "bad value":
            kw = sut.builder.kwargs(sut.schema, self.values, 0, ctx)
            return cls(**{**kw, name: object()}).to_bytes(ctx)
        if kind == "bad name":
            return cls(nothing_=1)
        if kind == "class size":
            meta = cls.__binobj_struct__
            return meta.size_bytes, [(f.name, f.offset, f.index)
                                     for f in meta.components.values()]
        if kind == "missing":
            return cls().to_bytes(ctx)
        if kind == "refused dump":
            x = sut.shared_refused[self.row]
            if self.shared is None:
                x = sut.refused(**sut.builder.kwargs(sut.schema, self.values, 0, ctx))
            return x.to_bytes(ctx)
        if kind == "refused load":
            return sut.refused.from_bytes(self.data, ctx)
        raise HarnessError(kind)

    def verify(self, alone, what):
        """The right result, whatever else happened in the meantime."""
        what = "%s: %s of %s" % (what, self.kind, self.name)
        r = self.result
        if self.kind in ("refused dump", "refused load"):
            eq(r and r[:2], ("!", "ValidationError"), what)
        if r is None:
            raise HarnessError("%s wasn't run" % what)
        d = self.data
        if self.kind in DUMPS:
            eq(r, ("=", d + b"\7" if self.kind == "subclass" else d), what)
        elif self.kind in ("load", "load stream"):
            v = ref.dec_struct(self.sut.schema, d, 0, self.sut.ctx)[0]
            eq(r, ("=", v if self.kind == "load" else (v, len(d))), what)
        else:
            eq(r, alone, what + ", by itself")
        if self.shared is not None:
            eq_bytes(self.shared.to_bytes(self.sut.ctx), d, what + ": the struct")


def world(case):
    sut = Sut(case)
    rows = [(v, sut.bytes(v)) for v in case["values"]]
    shared = [sut.make(v, case["how"] if case["how"] < 4 else 0) for v, _ in rows]

    def refuse(self, values):
        raise errors.ValidationError("refused", field=None, value=None)

    # Validators that refuse everything
    sut.refused = type("Refused", (sut.cls,), {"_refuse": decorators.validates_struct(refuse)})
    sut.shared_refused = [
        sut.refused(**sut.builder.kwargs(sut.schema, v, 0, sut.ctx)) for v, _ in rows]
    return sut, rows, shared


def alone(sut, ops, rows, shared):
    out = []
    for op in ops:
        t = Task(sut, op, rows, shared)
        t.run()
        t.verify(t.result, "by itself")
        out.append(t.result)
    return out


# --- stopped for other operations --------------------------------------------------


def tracer(tick, fine):
    """A trace function that calls tick() before lines (or instructions) of the library."""
    def local(frame, event, arg):
        if event == ("opcode" if fine else "line"):
            tick()
        return local

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(HERE):
            return None
        if fine:
            frame.f_trace_opcodes = True
        return local

    return trace


def traced(run, tick, fine):
    old = sys.gettrace()
    sys.settrace(tracer(tick, fine))
    try:
        run()
    finally:
        sys.settrace(old)


def interrupted(case):
    """An operation is stopped a few times, each time for another one."""
    sut, rows, shared = world(case)
    ops, fine = case["ops"], case["fine"]
    want = alone(sut, ops, rows, shared)
    main = Task(sut, ops[0], rows, shared)
    steps = [0]

    def count():
        steps[0] += 1

    traced(main.run, count, fine)
    main.verify(want[0], "traced")
    total = steps[0]
    if not total:
        return False
    at = {}
    if case["stops"][0] % 2:
        # Over and over, at most MANY times.
        step = max(1 + case["stops"][-1] % 3, -(-total // MANY))
        stops = range(case["stops"][0] % step, total, step)
    else:
        stops = case["stops"]
    for i, s in enumerate(stops):
        at.setdefault(s % total, []).append(1 + i % (len(ops) - 1))
    main = Task(sut, ops[0], rows, shared)
    others = []
    now = [0]

    def tick():
        for i in at.get(now[0], ()):
            t = Task(sut, ops[i], rows, shared)
            t.run()
            others.append((i, t))
        now[0] += 1

    traced(main.run, tick, fine)
    main.verify(want[0], "stopped at %s of %d for %s" % (
        sorted(at)[:9], total, [ops[i]["op"] for k in sorted(at) for i in at[k]][:9]))
    for i, t in others:
        t.verify(want[i], "within %s" % main.kind)
    return [main.kind] if others else False


def turns(case):
    """Threads that take turns by a schedule."""
    sut, rows, shared = world(case)
    ops, fine = case["ops"], case["fine"]
    want = alone(sut, ops, rows, shared)
    tasks = [Task(sut, op, rows, shared) for op in ops]
    schedule = case["schedule"]
    alive = list(range(len(tasks)))
    locks = [threading.Semaphore(0) for _ in tasks]
    done = threading.Semaphore(0)
    state = {"at": 0, "left": 0, "switches": 0, "broken": False}

    def pick():
        """Whose turn it is next, and for how long."""
        who, left = schedule[state["at"] % len(schedule)]
        state["at"] += 1
        state["left"] = left
        return alive[who % len(alive)]

    def tick(me):
        if state["broken"]:
            return
        state["left"] -= 1
        if state["left"] >= 0:
            return
        nxt = pick()
        if nxt != me:
            state["switches"] += 1
            locks[nxt].release()
            if not locks[me].acquire(timeout=WAIT):
                state["broken"] = True

    def work(me):
        if not locks[me].acquire(timeout=WAIT):
            state["broken"] = True
        try:
            traced(tasks[me].run, lambda: tick(me), fine)
        finally:
            alive.remove(me)
            if alive:
                locks[pick()].release()
            done.release()

    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(tasks))]
    for t in ts:
        t.start()
    locks[pick()].release()
    for _ in ts:
        if not done.acquire(timeout=WAIT):
            raise HarnessError("threads are stuck")
    for t in ts:
        t.join(WAIT)
    if state["broken"]:
        raise HarnessError("a thread waited for too long")
    for t, w in zip(tasks, want):
        t.verify(w, "with %s at the same time" % [x["op"] for x in ops])
    return state["switches"] > 0


# --- generation ---------------------------------------------------------------------


def _op(g, kinds=KINDS):
    return {"op": g.pick(kinds), "row": g.int(0, 1), "k": g.int(0, 60),
            "how": g.int(0, 3), "shared": g.chance(3)}


def _ops(g, kinds):
    """The second one is often the first one with other values."""
    ops = [_op(g, kinds) for _ in range(g.int(2, 4))]
    if g.chance(2):
        # Twice the same, on the same struct
        ops[0]["shared"] = True
        ops[1] = dict(ops[0])
    elif g.chance(4):
        ops[1] = {**ops[0], "row": 1 - ops[0]["row"], "shared": False}
    return ops


def _stops(g, c, kinds=KINDS):
    return {"ops": _ops(g, kinds), "fine": g.chance(2),
            "stops": [g.int(0, 1500) for _ in range(g.int(1, 4))]}


def _turns(g, c, kinds=KINDS):
    return {"ops": _ops(g, kinds), "fine": g.chance(2),
            "schedule": [[g.int(0, 3), g.int(0, 60)] for _ in range(g.int(1, 6))]}


MOSTLY = DUMPS + ("load", "load stream", "exact", "short", "partial load", "partial dump",
                  "field", "alone", "refused dump", "refused load")


def small(extra):
    """One thing of each kind at most, and mostly dumps and loads."""
    o = gen.opts(depth=0, groups=(1, 1), inherit=False)
    return gen.cases(o, n_values=2, extra=lambda g, c: extra(g, c, MOSTLY))


OPTS = gen.opts(depth=1, groups=(1, 3))

SUBS = [
    Sub("interrupted", gen.cases(OPTS, n_values=2, extra=_stops), interrupted, n=800),
    Sub("small, interrupted", small(_stops), interrupted, n=1600),
    Sub("turns", gen.cases(OPTS, n_values=2, extra=_turns), turns, n=600),
    Sub("small, turns", small(_turns), turns, n=1200),
]
