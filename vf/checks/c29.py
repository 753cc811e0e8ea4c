"""C29: a field by itself does what it does in its struct, and says so."""
import io

from binobj import errors, fields
from hypothesis import strategies as st

from .. import gen, ref
from ..common import Sut, eq, eq_bytes, raising, stop_offsets
from ..runner import Sub
from ..values import ABSENT, check, plain

RULE = (
    "Generated schemas and values. Each field is taken from the class and dumped and loaded"
    " by itself, given the values of the other fields, at the start or in the middle of a"
    " stream, followed by junk or not; and each is asked for its default, constant, size,"
    " whether it's required, nullable, computed, of fixed size. Oracle: its part of the"
    " struct's reference encoding, and what dumping the struct without it or with None in"
    " its place does. Non-trivial: at least two fields and two bytes."
)


def direct(case):
    """Loading and dumping each field by itself."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    body = sut.bytes(values)
    before, after = case["junk"]
    env = ref.effective(sut.schema, values, ctx)
    known = sut.builder.kwargs(
        sut.schema, {k: v for k, v in env.items() if v is not ABSENT}, 0, ctx)
    loaded, _ = ref.dec_all(sut.schema, body, 0, ctx)
    spans = stop_offsets(sut.parts(values))
    have, n = {}, 0
    for f in ref.all_fields(sut.schema):
        name = f["name"]
        a, b = spans[name]
        part = body[a:b]
        field = getattr(sut.cls, name)
        greedy = gen.reads_to_eof({"fields": [f]})
        tail = b"" if greedy else after
        if env[name] is not ABSENT:
            arg = sut.builder.arg(f, env[name], sut.how, env, ctx)
            eq_bytes(field.to_bytes(arg, ctx, known), part, "to_bytes of %s", name)
            s = io.BytesIO(before + b"\x55" * (len(part) + 3))
            s.seek(len(before))
            field.to_stream(s, arg, ctx, known)
            check(s.tell() == len(before) + len(part), "dumping %s ends at %d", name, s.tell())
            eq_bytes(s.getvalue(), before + part + b"\x55" * 3, "to_stream of %s", name)
            n += len(part) > 0
        given = dict(have)
        s = io.BytesIO(before + part + tail)
        s.seek(len(before))
        eq(plain(field.from_stream(s, ctx, given)), loaded[name], "from_stream of %s", name)
        check(s.tell() == len(before) + len(part), "loading %s ends at %d, not %d", name,
              s.tell(), len(before) + len(part))
        eq(plain(field.from_bytes(part, ctx, True, given)), loaded[name],
           "from_bytes of %s", name)
        eq(plain(field.from_bytes(bytearray(part + tail), context=ctx, exact=False,
                                  loaded_fields=given)), loaded[name],
           "from_bytes of %s, exact=False", name)
        if not greedy:
            with raising(errors.ExtraneousDataError, "loading %s with a byte more", name):
                field.from_bytes(part + b"\0", ctx, loaded_fields=given)
        check(set(given) == set(have) and all(given[k] is have[k] for k in given),
              "loading %s changed the other fields", name)
        have[name] = sut.builder.arg(f, loaded[name], 1, loaded, ctx)
        if loaded[name] is ABSENT:
            have[name] = fields.NOT_PRESENT
    return n >= 2


def outcome(act):
    try:
        return act()
    except errors.Error as e:
        return e


def described(case):
    """What fields say about themselves is what the struct does."""
    sut = Sut(case)
    values, ctx = case["values"], sut.ctx
    cls = sut.cls
    fs = ref.all_fields(sut.schema)
    env = ref.effective(sut.schema, values, ctx)
    # Every value explicit, if it can be
    full = {k: v for k, v in env.items()
            if not any(f["name"] == k and f.get("computed") for f in fs)}
    labels = set()
    for i, f in enumerate(fs):
        name = f["name"]
        field = getattr(cls, name)
        check(field.name == name and field.index == i, "%s says it's %s, %s", name,
              field.name, field.index)
        check(getattr(cls, name) is field, "another field each time")
        check(bool(field.discard) == bool(f.get("discard")), "discard of %s", name)
        # Constants and defaults
        if f.get("const") is None:
            check(field.const is fields.UNDEFINED, "%s has a constant", name)
        else:
            eq(plain(field.const), f["const"][0], "the constant of %s" % name)
        given = next((f[k] for k in ("default", "factory", "const") if f.get(k) is not None),
                     None)
        if given is None:
            check(field.default is fields.UNDEFINED, "%s has a default", name)
        else:
            eq(plain(field.default), given[0], "the default of %s" % name)
        check(field.required == (given is None), "%s says required=%s", name, field.required)
        check(field.allow_null == (f.get("null") is not None), "%s says allow_null=%s", name,
              field.allow_null)
        check(field.is_computed_field == (f.get("computed") is not None),
              "%s says is_computed_field=%s", name, field.is_computed_field)
        # What the struct does without it
        without = {k: v for k, v in full.items() if k != name}
        inst = sut.make(without)
        got = outcome(lambda: inst.to_bytes(ctx))
        try:
            want = sut.bytes(without)
        except (KeyError, ref.RefMissing, ref.RefInvalid, TypeError):
            want = None
        if want is not None:
            eq_bytes(got, want, "dumping without %s", name)
            labels.add("without")
        if (env[name] is not ABSENT and field.required and not field.is_computed_field
                and name not in used(fs)):
            check(isinstance(got, errors.MissingRequiredValueError),
                  "%s is required, but dumping without it gives %r", name, got)
            labels.add("required")
        if field.is_computed_field or field.const is not fields.UNDEFINED:
            # These can't be assigned.
            kept = outcome(lambda: sut.make(without))
            with raising(errors.ImmutableFieldError, "assigning to %s", name):
                setattr(kept, name, full.get(name))
            labels.add("immutable")
        # What it does with None
        if env[name] is not ABSENT and not f.get("computed") and name not in used(fs):
            nulled = {**full, name: None}
            got = outcome(lambda: sut.make(nulled).to_bytes(ctx))
            if field.allow_null:
                eq_bytes(got, sut.bytes(nulled), "dumping None for %s", name)
                labels.add("null")
            else:
                check(isinstance(got, errors.UnserializableValueError),
                      "dumping None for %s gives %r", name, got)
                labels.add("not null")
        # Sizes
        if field.has_fixed_size:
            eq(field.get_expected_size({}), field.size, "the expected size of %s" % name)
    return sorted(labels) if len(fs) >= 2 else False


def used(fs):
    """The fields that others need."""
    out = set()

    def cond(c):
        if c[0] in ("mask", "gt"):
            out.add(c[1])
        for x in c[1:]:
            if isinstance(x, (list, tuple)):
                cond(x)

    for f in fs:
        out.update(n for n, _ in gen.controllers(f))
        if f.get("present"):
            cond(f["present"])
        if f.get("computed") and f["computed"][0] != "const":
            out.add(f["computed"][1])
        u = f["comp"] if f["k"] == "array" else f
        if u["k"] == "union" and u["by"][0] == "field":
            out.add(u["by"][1])
    return out


def loose(case):
    """Fields that belong to no struct."""
    sut = Sut(case)
    n = 0
    for f in ref.all_fields(sut.schema):
        if f.get("present") or f.get("computed") or list(gen.controllers(f)):
            continue
        if f["k"] in ("union", "array", "nested"):
            continue
        field = sut.builder.field(f)
        check(field.name is None or field.name == f["name"], "its name is %r", field.name)
        given = next((f[k] for k in ("default", "factory", "const") if f.get(k) is not None),
                     None)
        if given is None:
            for act in (field.to_bytes, lambda: field.to_stream(io.BytesIO())):
                with raising(errors.MissingRequiredValueError, "dumping nothing by %r", f):
                    act()
        else:
            want = ref.enc_value(f, given[0], {}, None)
            eq_bytes(field.to_bytes(), want, "dumping nothing by %r", f)
            eq_bytes(field.to_bytes(fields.DEFAULT), want, "dumping DEFAULT by %r", f)
            s = io.BytesIO()
            field.to_stream(s)
            eq_bytes(s.getvalue(), want, "dumping nothing to a stream by %r", f)
            n += 1
        if f["name"] in case["values"] and case["values"][f["name"]] is not ABSENT:
            v = case["values"][f["name"]]
            want = ref.enc_value(f, v, {}, None)
            eq_bytes(field.to_bytes(sut.builder.arg(f, v)), want, "dumping %r by %r" % (v, f))
            got, _ = ref.dec_value(f, want, 0, {}, None)
            eq(plain(field.from_bytes(want)), got, "loading %r by %r" % (want, f))
            n += 1
        if field.has_fixed_size and f.get("null") is None:
            with raising(errors.UnserializableValueError, "dumping None by %r", f):
                field.to_bytes(None)
    return n >= 2


def _junk(g, case):
    return {"junk": [g.draw(st.binary(max_size=4)), g.draw(st.binary(max_size=4))]}


SUBS = [
    Sub("direct", gen.cases(extra=_junk), direct, n=2500),
    Sub("described", gen.cases(), described, n=2500),
    Sub("loose", gen.cases(gen.opts(cond=False, refs=False)), loose, n=1500),
]
