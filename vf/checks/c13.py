"""C13: text, bytes and UUID fields encode faithfully and never truncate."""
import io
import uuid

import binobj
from binobj import errors, fields
from hypothesis import strategies as st

from .. import company, gen, ref, spec
from ..common import eq, eq_bytes, raising
from ..runner import Sub
from ..values import check

RULE = (
    "Texts in twenty codecs (wide, multi-byte, stateful, with and without a byte order"
    " mark), byte strings and UUIDs, against sizes around their encoded length, with and"
    " without padding, with the size given by a number or another field, directly and in a"
    " struct between other fields and junk."
    " Several different fields also write and read each other's values in turn. Oracle: the codec, byte concatenation and"
    " big-endian integers. Non-trivial: at least two bytes, or a rejection."
)

STATEFUL = ["utf-7", "iso2022_jp", "hz", "iso2022_kr"]


def neighbours(f, schema_size=None):
    """The field between others in a struct: (class, prefix values)."""
    fs = [{"k": "int", "name": "p", "size": 1, "signed": False}]
    if schema_size is not None:
        fs.append({"k": "int", "name": "n", "size": 1, "signed": False})
    fs.append({**f, "name": "v"})
    fs.append({"k": "int", "name": "q", "size": 2, "signed": False, "endian": "big"})
    return {"fields": fs}


def through(f, case, v, want):
    """Dump and load a value through a field and a struct.

    want: the bytes, or an exception (or exceptions) if the value can't be dumped.
    """
    by_ref = case.get("by_ref")
    size = f.get("size")
    schema = neighbours(f)
    values = {"p": 1, "v": v, "q": 0x0203}
    pre = b"\x01"
    if by_ref and size is not None:
        g = {**f, "size": ["ref", "n", by_ref]}
        schema = neighbours(g, size)
        values["n"] = size
        pre += bytes([size])
    b = spec.Builder()
    fld = b.field(f)
    cls = b.struct(schema)
    inst = cls(**values)
    s = io.BytesIO(b"\x55" * 4)
    s.seek(2)
    if not isinstance(want, bytes):
        with raising(want, "dumping %r to %r", v, f):
            fld.to_stream(s, v)
        eq_bytes(s.getvalue(), b"\x55" * 4, "after rejecting %r", v)
        check(s.tell() == 2, "the stream was moved to %s", s.tell())
        with raising(want, "to_bytes(%r) of %r", v, f):
            fld.to_bytes(v)
        with raising(want, "dumping %r in a struct to %r", v, f):
            inst.to_bytes()
        return None
    fld.to_stream(s, v)
    check(s.tell() == 2 + len(want), "stream at %s", s.tell())
    eq_bytes(s.getvalue()[2:2 + len(want)], want, "dumping %r to %r" % (v, f))
    eq_bytes(fld.to_bytes(v), want, "to_bytes(%r) of %r" % (v, f))
    eq_bytes(inst.to_bytes(), pre + want + b"\2\3", "dumping %r in a struct to %r" % (v, f))
    return fld, cls, pre


def load(tools, data, want, what):
    """The field loads `data` to `want`, whatever is around it."""
    fld, cls, pre = tools
    eq(fld.from_bytes(data), want, "loading %r, %s" % (data, what))
    for around in (b"", b"\0\0\0\0", b"ab\xff"):
        s = io.BytesIO(around + data + around)
        s.seek(len(around))
        eq(fld.from_stream(s), want, "loading %r from %r, %s" % (data, s.getvalue(), what))
        check(s.tell() == len(around) + len(data), "consumed %d of %d bytes",
              s.tell() - len(around), len(data))
    inst = cls.from_bytes(pre + data + b"\2\3")
    eq(inst.v, want, "loading %r in a struct, %s" % (data, what))
    check((inst.p, inst.q) == (1, 0x0203), "neighbours: %r", (inst.p, inst.q))


def sized(case):
    """String and StringZ of a given size."""
    f, v = case["f"], case["v"]
    z = f["k"] == "strz"
    size, pad = f["size"], f.get("pad")
    try:
        enc = (v + "\0" if z else v).encode(f["encoding"])
    except UnicodeError:
        through(f, case, v, UnicodeError)
        return True
    if len(enc) > size or (len(enc) < size and pad is None):
        through(f, case, v, errors.ValueSizeError)
        return True
    full = enc + (pad or b"") * (size - len(enc))
    tools = through(f, case, v, full)
    if z:
        if enc.decode(f["encoding"]) == v + "\0":
            load(tools, full, v, "sized")
            junk = enc + case["junk"][:size - len(enc)].ljust(size - len(enc), b"\xff")
            load(tools, junk, v, "junk after the terminator")
    else:
        try:
            text = full.decode(f["encoding"])
        except UnicodeError:
            return False
        load(tools, full, text, "padded")
        if len(enc) == size and "\ufeff" not in v:
            if text != v:
                return False
    return len(full) > 1


def unsized(case):
    """StringZ of no given size."""
    f, v = case["f"], case["v"]
    enc = (v + "\0").encode(f["encoding"])
    if enc.decode(f["encoding"]) != v + "\0":
        return False
    tools = through(f, case, v, enc)
    load(tools, enc, v, "unsized")
    fld, cls, pre = tools
    for n in {0, len(enc) - 1, len(enc) // 2}:
        with raising(errors.UnexpectedEOFError, "loading %r", enc[:n]):
            fld.from_bytes(enc[:n])
        with raising(errors.UnexpectedEOFError, "loading %r in a struct", enc[:n]):
            cls.from_bytes(pre + enc[:n])
    # two of them
    s = io.BytesIO(enc + enc)
    eq([fld.from_stream(s), fld.from_stream(s)], [v, v], "two in a row")
    return len(enc) > 1


def scan(case):
    """The text ends at the first terminator, looking at whole code units."""
    f, data = case["f"], case["data"]
    codec = f["encoding"]
    w = gen.unit(codec)
    size = f.get("size")
    if size is not None:
        end = ref.strz_end(data, 0, min(size, len(data)), codec)
    else:
        end = ref.strz_end(data, 0, len(data), codec)
    fld = spec.Builder().field(f)
    s = io.BytesIO(data)
    if size is not None and len(data) < size:
        with raising(errors.UnexpectedEOFError, "loading %r by %r", data, f):
            fld.from_stream(s)
        return True
    if end is None:
        excs = (errors.DeserializationError, UnicodeError)
        if size is None and _valid(data, codec):
            excs = errors.UnexpectedEOFError
        with raising(excs, "loading %r by %r", data, f):
            fld.from_stream(s)
        return True
    try:
        want = data[:end - w].decode(codec)
    except UnicodeError:
        with raising((UnicodeError, errors.DeserializationError), "loading %r by %r", data, f):
            fld.from_stream(s)
        return True
    eq(fld.from_stream(s), want, "loading %r by %r" % (data, f))
    check(s.tell() == (size if size is not None else end), "%r consumed %d bytes of %r", f,
          s.tell(), data)
    return end > w


def _valid(data, codec):
    try:
        data.decode(codec)
    except UnicodeError:
        return False
    return True


def raw(case):
    """Bytes fields."""
    f, v = case["f"], case["v"]
    given = bytearray(v) if case["mutable"] else v
    if len(v) != f["size"]:
        through(f, case, given, errors.ValueSizeError)
        return True
    tools = through(f, case, given, v)
    load(tools, v, v, "bytes")
    fld, cls, pre = tools
    if v:
        with raising(errors.UnexpectedEOFError, "loading %r", v[:-1]):
            fld.from_bytes(v[:-1])
        with raising(errors.UnexpectedEOFError, "loading %r in a struct", v[:-1]):
            cls.from_bytes(pre + v[:-1])
    return len(v) > 1


def uuids(case):
    n = case["n"]
    v = uuid.UUID(int=n)
    h = "%032x" % n
    b = n.to_bytes(16, "big")
    for stored, want in (
        ("v1", b),
        ("v2", bytes([b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6]]) + b[8:]),
        ("canon", f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}".encode()),
        ("hex", h.encode()),
    ):
        f = {"k": "uuid", "stored": stored}
        tools = through(f, case, v, want)
        load(tools, want, v, stored)
        fld = tools[0]
        if stored in ("canon", "hex"):
            eq(fld.from_bytes(want.upper()), v, "capital letters")
        with raising(errors.UnexpectedEOFError, "loading %r", want[:-1]):
            fld.from_bytes(want[:-1])
        check(fld.size == len(want), "%s has the size %r", stored, fld.size)
    return n > 255


def const(case):
    """Fields sized by their constant."""
    f, v = case["f"], case["v"]
    f = {**f, "const": [v]}
    if f["k"] == "bytes":
        want = v
    else:
        want = (v + "\0" if f["k"] == "strz" else v).encode(f["encoding"])
        if want.decode(f["encoding"]).removesuffix("\0" if f["k"] == "strz" else "") != v:
            return False
    b = spec.Builder()
    schema = neighbours(f)
    cls = b.struct(schema)
    check(cls.v.size == len(want), "the size of %r is %r", f, cls.v.size)
    eq_bytes(cls(p=1, q=0x0203).to_bytes(), b"\1" + want + b"\2\3", "%r" % f)
    eq(cls.from_bytes(b"\1" + want + b"\2\3").v, v, "loading %r" % f)
    check(cls.get_size() == len(want) + 3, "the size of the struct is %r", cls.get_size())
    check(cls.q.offset == len(want) + 1, "the offset of q is %r", cls.q.offset)
    return len(want) > 1


def _pads(codec):
    return [None, b" ", b"\0", b"x", b"\xff", bytearray(b"_")][:5]


@st.composite
def _sized(draw):
    g = gen.Gen(draw, gen.opts())
    codec = g.pick(gen.CODECS)
    k = g.pick(["str", "strz"])
    v = draw(st.one_of(gen.texts(codec), gen.texts(codec, 3)))
    if g.chance(1):
        v = draw(st.text(max_size=4).filter(lambda s: "\0" not in s))
    w = gen.unit(codec)
    try:
        n = len((v + "\0" if k == "strz" else v).encode(codec))
    except UnicodeError:
        n = len(v) * 2
    pad = g.pick(_pads(codec)) if w == 1 else g.pick([None, b"\0", b" "])
    size = max(0, n + g.pick([0, 0, 0, w, w, 2 * w, 4 * w, -w, 1, -1, -n]))
    return {"f": {"k": k, "encoding": codec, "size": size, "pad": pad}, "v": v,
            "by_ref": g.pick([None, None, "f", "n"]),
            "junk": draw(st.binary(max_size=8))}


@st.composite
def _unsized(draw):
    g = gen.Gen(draw, gen.opts())
    codec = g.pick(gen.CODECS + STATEFUL)
    if codec in ("iso2022_jp", "hz", "iso2022_kr"):
        v = draw(st.text(st.sampled_from({
            "iso2022_jp": "abcあいう漢字~", "hz": "ab中文字~", "iso2022_kr": "ab한국어"}[codec]),
            max_size=6))
    elif codec == "utf-7":
        v = draw(st.text(st.characters(min_codepoint=1, max_codepoint=0x2fff), max_size=6))
    else:
        v = draw(st.one_of(gen.texts(codec), gen.texts(codec, 40)))
    return {"f": {"k": "strz", "encoding": codec}, "v": v}


@st.composite
def _scan(draw):
    g = gen.Gen(draw, gen.opts())
    codec = g.pick(["iso-8859-1", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le",
                    "utf-32-be", "ascii", "cp037", "shift_jis", "cp1252"])
    w = gen.unit(codec)
    chunk = st.one_of(
        gen.texts(codec, 3).map(lambda s: s.encode(codec)),
        st.just(b"\0" * w), st.binary(max_size=3),
        st.just(b"\0"), st.just(b"a"),
    )
    data = b"".join(draw(st.lists(chunk, max_size=6)))
    size = g.pick([None, None, g.int(0, 10)])
    return {"f": {"k": "strz", "encoding": codec, "size": size}, "data": data}


@st.composite
def _raw(draw):
    v = draw(st.binary(max_size=20))
    size = max(0, len(v) + draw(st.sampled_from([0, 0, 0, 0, 1, -1, 3, -3])))
    return {"f": {"k": "bytes", "size": size}, "v": v, "mutable": draw(st.booleans()),
            "by_ref": draw(st.sampled_from([None, "f", "n"]))}


@st.composite
def _const(draw):
    g = gen.Gen(draw, gen.opts())
    k = g.pick(["str", "strz", "bytes"])
    f = {"k": k}
    if k == "bytes":
        return {"f": f, "v": draw(st.binary(max_size=6))}
    f["encoding"] = g.pick(gen.CODECS)
    return {"f": f, "v": draw(gen.texts(f["encoding"], 5))}


def open_ended(case):
    """String and Bytes fields of no given size take up what their value does."""
    f, values, default = case["f"], case["values"], case["default"]
    kw = {} if default is None else {"default": default}
    if f["k"] == "str":
        fld = fields.String(encoding=f["encoding"], **kw)
    else:
        fld = fields.Bytes(**kw)

    def enc(v):
        return v.encode(f["encoding"]) if f["k"] == "str" else v

    S = type("S", (binobj.Struct,), {"p": fields.UInt8(), "v": fld,
                                     "q": fields.UInt16(endian="big")})
    check(S.get_size() is None and not S.v.has_fixed_size, "there's a size")
    inst = S(p=1, q=0x0203) if default is not None else S(p=1, v=values[0], q=0x0203)
    rest = list(values)
    if default is not None:
        rest.insert(0, default)
    for i, v in enumerate(rest):
        if i:
            inst.v = v
        want = b"\1" + enc(v) + b"\2\3"
        eq_bytes(inst.to_bytes(), want, "dumping %r" % v)
        check(len(inst) == len(want), "len() is %d", len(inst))
        s = io.BytesIO()
        inst.partial_dump(s, "v")
        eq_bytes(s.getvalue(), want[:-2], "a partial dump of %r" % v)
    return any(len(enc(v)) > 1 for v in values) or "" in values or b"" in values


def large(case):
    """Sizes around those where anybody might split what's written or read."""
    k, n, codec = case["k"], case["n"], case["codec"]
    piece = case["piece"]
    if k == "bytes":
        v = (piece * (n // len(piece) + 1))[:n]
        enc = v
    else:
        unit = case["char"]
        w = len(unit.encode(codec))
        v = unit * (n // w)
        enc = v.encode(codec)
    end = "\0".encode(codec) if k == "strz" else b""
    size = {"fits": len(enc) + len(end), "pad": len(enc) + len(end) + case["more"]}.get(
        case["by"])
    f = {"k": k, "name": "v", "encoding": codec}
    if case["by"] == "ref":
        size = len(enc) + len(end)
        f["size"] = ["ref", "p", "n"]
    elif size is not None:
        f["size"] = size
    pad = b""
    if size is not None and size > len(enc) + len(end):
        f["pad"] = b"\xfe" if k == "strz" else b" "
        pad = f["pad"] * (size - len(enc) - len(end))
    fs = [{"k": "int", "name": "p", "size": 4, "signed": False, "endian": "big"}, f,
          {"k": "int", "name": "q", "size": 2, "signed": False, "endian": "big"}]
    cls = spec.Builder().struct({"fields": fs})
    total = len(enc + end + pad)
    want = total.to_bytes(4, "big") + enc + end + pad + b"\xab\xcd"
    inst = cls(p=total, v=v, q=0xABCD)
    data = inst.to_bytes()
    check(data == want, "%d bytes: %s", total, "others were dumped")
    check(len(inst) == len(want), "len() is %d instead of %d", len(inst), len(want))
    value = v if k != "str" else v + pad.decode(codec)
    for load in (lambda: cls.from_bytes(want),
                 lambda: cls.from_stream(io.BufferedReader(io.BytesIO(want))),
                 lambda: cls.partial_load(io.BytesIO(want))):
        got = load()
        check(got.p == total and got.v == value and got.q == 0xABCD,
              "%d bytes: other values were loaded", total)
    stream = io.BytesIO(want)
    check(cls.get_field(stream, "v") == value, "get_field() of %d bytes", total)
    check(cls.get_field(stream, "q") == 0xABCD, "get_field() after %d bytes", total)
    for cut in (len(want) - 3, 4 + total // 2, len(want) - 1):
        with raising((errors.UnexpectedEOFError, UnicodeDecodeError)
                     if cut < 4 + total and k != "bytes" else errors.UnexpectedEOFError,
                     "%d of %d bytes", cut, len(want)):
            cls.from_bytes(want[:cut])
    return True


@st.composite
def _large(draw):
    g = gen.Gen(draw, gen.opts())
    k = g.pick(["bytes", "str", "strz"])
    codec = g.pick(["iso-8859-1", "utf-8", "utf-16-le", "utf-32-be"])
    n = (1 << g.pick([7, 8, 8, 9, 10, 11, 12, 12, 13, 14, 15, 16, 16, 17])) + g.int(-3, 3)
    if k == "strz" and n > 20000:
        n //= 8
    if g.chance(3):
        n = g.int(100, 20000)
    by = ["fits", "ref"] + (["pad"] if k != "bytes" and codec != "utf-16-le" and codec != "utf-32-be"
                            or k == "strz" else [])
    if k == "strz":
        by.append("none")
    by = g.pick(by)
    if codec == "utf-8" and by == "pad" and k == "strz":
        codec = "iso-8859-1"
    return {"k": k, "n": n, "codec": codec, "by": by, "more": g.pick([1, 255, 256, 4096]),
            "piece": g.draw(st.binary(min_size=1, max_size=7)),
            "char": g.pick(["x", "\xe9", "ab\xff"] + (
                ["\u20ac", "\U0001f600z"] if codec.startswith("utf") else []))}


@st.composite
def _open_ended(draw):
    if draw(st.booleans()):
        f = {"k": "bytes"}
        val = st.binary(max_size=5)
    else:
        f = {"k": "str", "encoding": draw(st.sampled_from(gen.CODECS))}
        val = st.one_of(st.just(""), gen.texts(f["encoding"], 5))
    return {"f": f, "values": draw(st.lists(val, min_size=1, max_size=3)),
            "default": draw(st.one_of(st.none(), val))}


SUBS = [
    company.sub(["str", "strz"], n=2000),
    Sub("large", _large(), large, n=800),
    Sub("open-ended", _open_ended(), open_ended, n=1000),
    Sub("sized", _sized(), sized, n=5000),
    Sub("unsized", _unsized(), unsized, n=2500),
    Sub("scan", _scan(), scan, n=5000),
    Sub("raw", _raw(), raw, n=1500),
    Sub("uuids", st.one_of(st.integers(0, (1 << 128) - 1),
                           st.sampled_from([0, 1, (1 << 128) - 1])).map(lambda n: {"n": n}),
        uuids, n=800),
    Sub("const", _const(), const, n=1500),
]
