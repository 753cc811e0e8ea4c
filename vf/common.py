"""Things shared by the checks."""
import contextlib
import io
import types

import binobj
from binobj import errors

from . import custom, ref, spec
from .values import ABSENT, Violation, check, plain, same


class Sut:
    """The class, instance and so on of a generated case."""

    def __init__(self, case, log=None, style=None):
        self.schema = case["schema"]
        self.ctx = case.get("ctx")
        self.how = case.get("how", 0)
        if case.get("custom"):
            self.calls = []
            self.builder = custom.Builder(case["custom"], log, style, self.calls)
        else:
            self.builder = spec.Builder(log, style)
        self.cls = self.builder.struct(self.schema)
        self.cold = log is None and not case.get("custom") and self.how % 2

    def use_parents(self, values):
        """Use the parent classes first, which the child's behaviour mustn't depend on."""
        s = self.schema
        while s.get("base"):
            s = s["base"]
            names = [f["name"] for f in ref.all_fields(s)]
            cls = self.builder.struct(s)
            try:
                inst = self.builder.make(
                    s, {n: values[n] for n in names if n in values}, 0, self.ctx)
                data = inst.to_bytes(self.ctx)
                cls.from_bytes(data, self.ctx, False)
                cls.partial_load(io.BytesIO(data), None, self.ctx)
                cls.get_field(io.BytesIO(data), names[-1], self.ctx)
                inst.partial_dump(io.BytesIO(), None, self.ctx)
                len(inst), inst.to_dict(True, self.ctx), cls.get_size(), inst == inst
            except Exception:   # The values needn't be complete, nor valid.
                pass

    def make(self, values, how=None):
        if self.cold:
            self.cold = False
            self.use_parents(values)
        return self.builder.make(
            self.schema, values, self.how if how is None else how, self.ctx
        )

    def bytes(self, values):
        return ref.enc_struct(self.schema, values, self.ctx)

    def parts(self, values):
        return ref.enc_parts(self.schema, values, self.ctx)

    def names(self):
        return [f["name"] for f in ref.all_fields(self.schema)]


@contextlib.contextmanager
def raising(excs, what, *args):
    """Check that the block raises one of the given exceptions."""
    box = types.SimpleNamespace(caught=None)
    try:
        yield box
    except excs as e:
        box.caught = e
        return
    except Exception as e:
        raise Violation(
            f"{what % args if args else what}: expected {names(excs)}, got"
            f" {type(e).__name__}: {e}"
        ) from e
    raise Violation(
        f"{what % args if args else what}: expected {names(excs)}, nothing was raised"
    )


def names(excs):
    if isinstance(excs, tuple):
        return " or ".join(e.__name__ for e in excs)
    return excs.__name__


def eq_bytes(got, want, what, *args):
    if not isinstance(got, (bytes, bytearray)) or bytes(got) != bytes(want):
        raise Violation(f"{what % args if args else what}: got {got!r}, expected {want!r}")


def eq(got, want, what, *args):
    if not same(got, want):
        raise Violation(f"{what % args if args else what}: got {got!r}, expected {want!r}")


def clean(values):
    """Without the distinction between an absent field and no field at all."""
    return {k: v for k, v in values.items()}


def stop_offsets(parts):
    """{name: (start, end)} from enc_parts."""
    out = {}
    pos = 0
    for name, b in parts:
        end = pos + len(b or b"")
        out[name] = (pos, end)
        pos = end
    return out


def dump_stream(fn):
    s = io.BytesIO()
    fn(s)
    return s.getvalue()


def wrap(sut, count=None):
    """A struct with a nested field (or array of nested fields) of the schema."""
    f = {"k": "nested", "name": "inner", "struct": sut.schema}
    if count is not None:
        f = {"k": "array", "name": "inner", "comp": {"k": "nested", "struct": sut.schema},
             "count": count}
    head = {"k": "int", "name": "head", "size": 2, "signed": False, "endian": "big"}
    tail = {"k": "int", "name": "tail", "size": 1, "signed": False}
    return {"fields": [head, f, tail]}


def truncations(n, limit=40):
    """Lengths of strict prefixes of n bytes to try."""
    if n <= limit:
        return list(range(n))
    step = n / limit
    return sorted({int(i * step) for i in range(limit)} | {n - 1, n - 2, 0, 1})


INVALID = (errors.DeserializationError, errors.ValidationError, ValueError, OverflowError,
           OSError)


def kinds(decode):
    """What the remains of a truncated serialization may raise (None: they're complete).

    Cutting a null value can leave other bytes that aren't valid either, such as those of
    a wrong constant.
    """
    try:
        decode()
    except ref.RefEOF:
        return errors.UnexpectedEOFError
    except ref.RefInvalid:
        return INVALID
    return None


class Lazy(dict):
    """Values of an incomplete struct, derived when they're needed."""

    def __init__(self, schema, values, ctx):
        self.fs = {f["name"]: f for f in ref.all_fields(schema)}
        self.given = values
        self.ctx = ctx

    def __missing__(self, name):
        f = self.fs[name]
        v = self.value(f)
        if f.get("present") and not ref.holds(f["present"], self, self.ctx):
            v = ABSENT
        elif v is RuntimeError:
            raise ref.RefMissing(name)
        self[name] = v
        return v

    def value(self, f):
        if f["name"] in self.given:
            return self.given[f["name"]]
        for k in ("default", "factory", "const"):
            if f.get(k) is not None:
                return f[k][0]
        if f.get("computed") is not None:
            return ref.compute(f["computed"], self)
        return RuntimeError
