"""C05: reported sizes and offsets are the real ones."""
from binobj import fields
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, stop_offsets
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Cases are generated schemas, half of them of fixed-size fields only, each with"
    " several values; the class's, instance's and fields' reported sizes, offsets and"
    " indices are compared with the serializations an independent encoder gives."
    " Non-trivial: the class reports a size, or reports an offset above 0 for a field."
)


def sizes(case):
    sut = Sut(case)
    ctx = sut.ctx
    # Those of its parents, and of what's nested in it
    for cls, s in list(sut.builder.memo.values()):
        n = ref.struct_fixed_size(s)
        if n is not None:
            got = cls.get_size()
            check(got == n, "get_size() of %s is %s instead of %s", cls.__name__, got, n)
    size = sut.cls.get_size()
    fixed = ref.struct_fixed_size(sut.schema)
    fs = ref.all_fields(sut.schema)
    if fixed is not None:
        check(size == fixed, "get_size() is %s instead of %s", size, fixed)
    offsets = at = 0
    for f in fs:
        # As long as everything before it is always there and equally long
        got = getattr(sut.cls, f["name"]).offset
        check(got == at, "offset of %s is %s instead of %s", f["name"], got, at)
        n = ref.fixed_size(f)
        if n is None or f.get("present"):
            break
        at += n
    for values in case["values"]:
        parts = sut.parts(values)
        total = sum(len(b or b"") for _, b in parts)
        inst = sut.make(values)
        check(len(inst.to_bytes(ctx)) == total, "dumped %s bytes instead of %s",
              len(inst.to_bytes(ctx)), total)
        if size is not None:
            check(total == size, "get_size() is %s but %s bytes are dumped", size, total)
            check(inst.get_size() == size, "get_size() of an instance")
        if not gen.uses_ctx(sut.schema):
            check(len(inst) == total, "len() is %s instead of %s", len(inst), total)
            if not any(f.get("discard") or f.get("null", ("",))[0] == "bytes"
                       for f in gen.walk(sut.schema)):
                loaded = sut.cls.from_bytes(inst.to_bytes())
                check(len(loaded) == total, "len() of the loaded struct is %s instead of"
                      " %s", len(loaded), total)
        spans = stop_offsets(parts)
        for i, f in enumerate(fs):
            field = getattr(sut.cls, f["name"])
            check(field.index == i, "index of %s is %s instead of %s",
                  f["name"], field.index, i)
            a, b = spans[f["name"]]
            absent = parts[i][1] is None
            if field.offset is not None:
                offsets += field.offset > 0
                check(field.offset == a, "offset of %s is %s instead of %s",
                      f["name"], field.offset, a)
            if field.has_fixed_size and not absent:
                check(isinstance(field.size, int) and field.size == b - a,
                      "size of %s is %s instead of %s", f["name"], field.size, b - a)
            n = ref.fixed_size(f)
            if n is not None:
                check(field.has_fixed_size and field.size == n,
                      "size of %s is %s instead of %s", f["name"], field.size, n)
    return size is not None or offsets > 0


def absent(case):
    """Values that say that a field isn't there, whatever its condition says."""
    sut = Sut(case)
    values = case["values"]
    inst = sut.make(values)
    fs = {f["name"]: f for f in ref.all_fields(sut.schema)}
    n = 0
    for name in case["absent"]:
        if fs[name].get("const") or fs[name].get("computed"):
            continue
        inst[name] = fields.NOT_PRESENT
        n += 1
        try:
            data = inst.to_bytes()
        except Exception:
            return n > 1    # Others depend on it.
        check(len(inst) == len(data), "without %r, %d bytes are dumped but len() is %d",
              case["absent"][:n], len(data), len(inst))
    if n < len(case["absent"]):
        return n > 0
    try:
        parts = sut.parts({**values, **{k: ABSENT for k in case["absent"]}})
    except Exception:
        return n > 0
    total = sum(len(b or b"") for _, b in parts)
    check(len(data) == total, "without %r, %d bytes are dumped instead of %d",
          case["absent"], len(data), total)
    return True


def _absent(g, c):
    names = [f["name"] for f in ref.all_fields(c["schema"])]
    return {"absent": g.draw(st.lists(st.sampled_from(names), unique=True, min_size=1,
                                      max_size=3))}


FIXED = gen.opts(variable=False, refs=False, cond=False, union=False, halt=False,
                 eof=False, ctx=False)
SUBS = [
    Sub("any", gen.cases(gen.opts(ctx=False, loose=True), 2), sizes, n=1500),
    Sub("context", gen.cases(gen.opts(eof=False, loose=True), 2), sizes, n=1000),
    Sub("absent", gen.cases(gen.opts(ctx=False, eof=False), extra=_absent), absent, n=700),
    Sub("wide", gen.cases(gen.opts(
        groups=(15, 40), depth=1, eof=False, ctx=False), 2), sizes, n=120),
    Sub("fixed", gen.cases(FIXED, 2), sizes, n=2000),
]
