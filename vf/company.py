"""Fields of similar kinds used in turn: none is affected by what the others did."""
import io

from hypothesis import strategies as st

from . import gen, ref, spec
from .common import eq, eq_bytes
from .runner import Sub
from .values import check, plain

REFUSED = (ref.RefError, ValueError, OverflowError)


def company(case):
    fs = case["fields"]
    made = [spec.Builder().field({**f, "name": "v"}) for f in fs]
    first = set()
    mixed = False
    for i, j in case["steps"]:
        f, fld = fs[i], made[i]
        owner, v = case["values"][j]
        s = io.BytesIO(b"\x55")
        s.seek(1)
        try:
            want = ref.enc_value(f, v, {}, None)
        except REFUSED:
            want = None
        try:
            fld.to_stream(s, v)
        except Exception as e:
            check(want is None, "field %d refuses %r: %r", i, v, e)
            eq_bytes(s.getvalue(), b"\x55", "after field %d refused %r", i, v)
        else:
            check(want is not None, "field %d writes %r as %r", i, v, s.getvalue()[1:])
            eq_bytes(s.getvalue(), b"\x55" + want, "field %d, given %r", i, v)
        mixed |= i != owner or j in first
        first.add(j)
        # What another of them wrote, as it'd load it
        try:
            data = ref.enc_value(fs[owner], v, {}, None) if want is None else want
        except REFUSED:
            continue   # Two options that don't go together
        try:
            back, end = ref.dec_value(f, data, 0, {}, None)
        except REFUSED:
            try:
                got = fld.from_bytes(data, exact=False)
            except Exception:
                continue
            check(False, "field %d loads %r as %r", i, data, got)
        s = io.BytesIO(data)
        eq(plain(fld.from_stream(s)), back, "field %d loading %r", i, data)
        check(s.tell() == end, "field %d loading %r ends at %d", i, data, s.tell())
    return mixed


@st.composite
def _company(draw, kinds, o):
    g = gen.Gen(draw, gen.opts(**o))
    n = g.int(2, 4)
    fs = []
    for _ in range(n):
        f = g.scalar(kinds)
        if fs and g.chance(4):  # one that differs in a single respect
            other = dict(g.pick(fs))
            if other["k"] == f["k"]:
                key = g.pick(sorted(set(f) & set(other) - {"k", "name"}) or ["k"])
                f = {**other, key: f[key]}
        fs.append(f)
    if kinds == ["ts"]:
        fs = [{**f, "aware": fs[0]["aware"]} for f in fs]
    values = []
    for i in range(g.int(1, 3)):
        owner = g.int(0, n - 1)
        values.append([owner, g.value(fs[owner], {}, None)])
    steps = [[owner, j] for j, (owner, _) in enumerate(values)]
    steps += draw(st.lists(
        st.tuples(st.integers(0, n - 1), st.integers(0, len(values) - 1)).map(list),
        min_size=1, max_size=8))
    return {"fields": fs, "values": values, "steps": steps}


def sub(kinds, n, **o):
    return Sub("company", _company(kinds, o), company, n=n)
