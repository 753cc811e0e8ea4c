"""Hypothesis strategies for schema specs, the values they hold, and contexts.

Field spec: {"k": kind, "name", ...}; struct spec: {"fields", "base", "style", "meta"}.
Everything is plain data, so that a case can be written to a replay file.
"""
import datetime
import uuid

from hypothesis import strategies as st

from . import ref
from .values import ABSENT, Falsy

NAMES = [
    "a", "b", "c", "d", "e", "n", "x", "y", "z", "size", "name", "data", "count", "kind",
    "offset", "flags", "default", "value", "length", "index", "type_", "_p", "__q", "A1",
    "item", "present", "const", "discard", "id", "tail", "body", "magic", "crc", "w",
]
# `name` of an array component etc. is irrelevant, but a field may be called anything.

CODECS = [
    "iso-8859-1", "ascii", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be",
    "utf-16", "utf-32", "utf-8-sig", "cp037", "shift_jis", "gb18030", "cp1252", "koi8-r",
]
PLAIN_CODECS = ["iso-8859-1", "utf-8", "utf-16-le", "ascii"]

# Byte order marks, noncharacters, line ends, combining ones, those with zero bytes, ...
SPECIAL = "\ufeff\ufffe\ufffd\uffff\x85\u2028\u0100\u0a00\U0010ffff\U00010000\u0301\r\n"

_chars = {}


def _lossless(codec, s):
    try:
        return s.encode(codec).decode(codec) == s
    except UnicodeError:
        return False


def _is_lossless_char(codec):
    def f(c):
        return _lossless(codec, c)
    return f


def chars(codec):
    if codec not in _chars:
        base = {
            "iso-8859-1": st.characters(min_codepoint=1, max_codepoint=255),
            "ascii": st.characters(min_codepoint=1, max_codepoint=127),
            "cp037": st.characters(min_codepoint=1, max_codepoint=255),
        }.get(codec)
        if base is None:
            if codec in ("shift_jis", "cp1252", "koi8-r"):
                pool = [
                    chr(i) for i in range(1, 0x10000)
                    if not 0xD800 <= i < 0xE000 and _lossless(codec, chr(i))
                ]
                base = st.sampled_from(pool)
            else:
                base = st.one_of(
                    st.characters(min_codepoint=1, max_codepoint=127),
                    st.characters(min_codepoint=1, exclude_categories=("Cs",)),
                    st.sampled_from(SPECIAL),
                )
        _chars[codec] = base
    return _chars[codec]


_texts = {}


def texts(codec, max_size=8):
    key = codec, max_size
    if key not in _texts:
        _texts[key] = st.text(chars(codec), max_size=max_size)
    return _texts[key]


def unit(codec):
    return ref.UNIT.get(codec, 1)


def fit_text(s, n, codec, pad, z, fill=True):
    """Make a text take up n bytes (at most n, if it's to be padded)."""
    end = "\0" if z else ""
    while s and len((s + end).encode(codec)) > n:
        s = s[:-1]
    if pad is None or fill:
        while len((s + "a" + end).encode(codec)) <= n:
            s += "a"
    return s


INTERESTING = [0, 1, 2, 3, 0x7F, 0x80, 0xFF, 0x100]

_ints = {}


def ints(size, signed):
    key = size, signed
    if key not in _ints:
        if signed:
            lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
        else:
            lo, hi = 0, (1 << (8 * size)) - 1
        edge = {lo, lo + 1, hi, hi - 1, -1, -2, 1 << (8 * size - 2), *INTERESTING}
        if signed:
            edge |= {-x for x in INTERESTING}
        edge |= {0x0102030405060708090A0B0C0D0E0F10 & hi}
        edge = sorted(x for x in edge if lo <= x <= hi)
        _ints[key] = st.one_of(st.sampled_from(edge), st.integers(lo, hi))
    return _ints[key]


def _vli_edges():
    out = set()
    for bits in range(0, 71):
        if bits % 7 in (0, 6, 5, 1) or bits in (32, 63, 64):
            for d in (-1, 0, 1):
                out.add((1 << bits) + d)
    return sorted(out | {300, 12345})


VLI_POS = st.one_of(
    st.sampled_from(_vli_edges()), st.integers(0, 300), st.integers(0, 1 << 80)
)
VLI_ANY = st.one_of(VLI_POS, VLI_POS.map(lambda x: -x))


def vlis(fmt):
    return VLI_POS if fmt in ("vlq", "uleb128") else VLI_ANY


_floats = {}


def floats(fmt):
    """Non-NaN values a format represents exactly, and some it has to round."""
    if fmt not in _floats:
        n = 8 * ref.FLOAT_SIZE[fmt]
        e, m = ref.FLOATS[fmt]
        edge_bits = [
            0, 1, (1 << m) - 1, 1 << m, ((1 << (e - 1)) - 1) << m,
            (((1 << e) - 1) << m) - 1, ((1 << e) - 1) << m, 2, (1 << m) + 1,
        ]
        edge_bits += [b | (1 << (n - 1)) for b in edge_bits]
        exact = st.one_of(st.sampled_from(edge_bits), st.integers(0, (1 << n) - 1))
        exact = exact.map(lambda b: ref.float_from_bits(b, fmt)).filter(lambda x: x == x)
        top = ref.float_from_bits((((1 << e) - 1) << m) - 1, fmt)
        rounded = st.floats(-top, top, allow_nan=False)
        _floats[fmt] = st.one_of(exact, exact, rounded)
    return _floats[fmt]


UUIDS = st.one_of(
    st.integers(0, (1 << 128) - 1),
    st.sampled_from([0, (1 << 128) - 1, 0x0102030405060708090A0B0C0D0E0F10]),
).map(lambda i: uuid.UUID(int=i))

# Whole units of time a datetime can have, with room for any zone.
MIN_S = -62135596800 + 86400 * 2
MAX_S = 253402300799 - 86400 * 2


def ts_range(f):
    size, signed = f["size"], f["signed"]
    u = ref.UNITS[f["res"]]
    lo = -(1 << (8 * size - 1)) if signed else 0
    hi = (1 << (8 * size - 1 if signed else 8 * size)) - 1
    return max(lo, MIN_S * u), min(hi, MAX_S * u)


OFFSETS = st.one_of(
    st.just(0), st.integers(-86399, 86399),
    st.sampled_from([3600, -3600, 19800, -18000, 86399, -86399]),
)


def draw_ts(draw, f):
    lo, hi = ts_range(f)
    edges = [x for x in (lo, hi, 0, 1, -1, 1500000000, 1234567) if lo <= x <= hi]
    n = draw(st.one_of(st.integers(lo, hi), st.sampled_from(edges)))
    u = ref.UNITS[f["res"]]
    us = n * 10**6 // u if n >= 0 else -(-n * 10**6 // u)
    if u < 10**6 and n != lo and n != hi:
        extra = draw(st.sampled_from([0, 0, 1, 10**6 // u - 1]))
        us += extra if n >= 0 else -extra
    tz = datetime.timezone.utc
    dt = ref.EPOCH + datetime.timedelta(microseconds=us)
    if not f["aware"]:
        return dt.replace(tzinfo=None)
    off = draw(OFFSETS)
    if off:
        tz = datetime.timezone(datetime.timedelta(seconds=off))
    return dt.astimezone(tz)


# --- schemas ---------------------------------------------------------------------

DEFAULTS = dict(
    depth=2, groups=(1, 4), eof=True, ctx=True, cond=True, discard=True, null=True,
    default=True, factory=True, const=True, computed=True, inherit=True, union=True,
    nested=True, array=True, halt=True, ts=True, float=True, refs=True, pep526=True,
    bom=True, npv=True, codecs=CODECS, variable=True, npv_values=True,
    loose=False,  # null bytes that others may begin with
    more=(),  # kinds of groups to generate more of
)


def opts(**kw):
    out = dict(DEFAULTS)
    for k, v in kw.items():
        if k not in out:
            raise KeyError(k)
        out[k] = v
    return out


class Gen:
    names = NAMES

    def __init__(self, draw, o):
        self.draw = draw
        self.o = o
        self.structs = []

    def pick(self, seq):
        return self.draw(st.sampled_from(seq))

    def chance(self, num, den=8):
        return self.draw(st.integers(0, den - 1)) < num

    def context(self, ctx):
        """The same context, now and then as an object that's false."""
        return Falsy(ctx) if ctx and self.chance(2) else ctx

    def int(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    # -- fields

    def scalar(self, kinds=None, sized=False):
        """A field of a simple kind, with no options. sized: no variable sizes."""
        o = self.o
        if kinds is None:
            kinds = ["int", "int", "int", "bytes", "str", "uuid"]
            if o["float"]:
                kinds.append("float")
            if o["ts"]:
                kinds.append("ts")
            if o["variable"] and not sized:
                kinds += ["vli", "strz", "strz"]
        k = self.pick(kinds)
        f = {"k": k}
        if k == "int":
            f["size"] = self.pick([1, 1, 2, 2, 4, 8, 3, 5, 16])
            f["signed"] = self.pick([False, True])
            f["generic"] = self.pick([False, True])
            f["endian"] = self.pick(["big", "little", None])
        elif k == "float":
            f["fmt"] = self.pick(["f", "d", "e"])
            f["endian"] = self.pick(["big", "little", None])
        elif k == "vli":
            f["fmt"] = self.pick(["vlq", "uleb128", "leb128", "compact"])
        elif k == "ts":
            f["size"] = self.pick([4, 8, 12])
            f["res"] = self.pick(["s", "ms", "us", "ns"])
            f["aware"] = self.pick([False, True])
            f["signed"] = self.pick([True, True, False])
            f["endian"] = self.pick(["big", "little", None])
        elif k == "bytes":
            f["size"] = self.int(0, 6)
        elif k == "str":
            self._text(f)
            w = unit(f["encoding"])
            lo = len("".encode(f["encoding"]))
            f["size"] = lo + w * self.int(0, 8 // w)
        elif k == "strz":
            self._text(f)
            if sized or self.chance(2):
                w = unit(f["encoding"])
                lo = len("\0".encode(f["encoding"]))
                f["size"] = lo + w * self.int(0, 8 // w)
            else:
                f.pop("pad", None)
        elif k == "uuid":
            f["stored"] = self.pick(["v1", "v2", "canon", "hex"])
        return f

    def _text(self, f, codecs=None):
        codecs = codecs or self.o["codecs"]
        if not self.o["bom"]:
            codecs = [c for c in codecs if c not in ("utf-16", "utf-32", "utf-8-sig")]
        f["encoding"] = self.pick(codecs)
        if self.chance(4):
            if unit(f["encoding"]) == 4:
                f["pad"] = b"\0"
            elif unit(f["encoding"]) == 2:
                f["pad"] = self.pick([b"\0", b" ", b"x"])
            else:
                f["pad"] = self.pick([b" ", b"\0", b"x", b"\x7f"])

    def options(self, f, cond=False):
        """Add a default, a constant, a null value and so on."""
        o = self.o
        kinds = ["none"] * 4
        kinds += [k for k in ("default", "factory", "const", "null", "null") if o[k]]
        kind = self.pick(kinds)
        if kind in ("default", "factory"):
            f[kind] = [self.value(f, {}, None)]
        elif kind == "const":
            if f["k"] in ("str", "bytes", "strz", "int", "vli", "uuid", "float"):
                if f["k"] in ("str", "strz", "bytes") and self.chance(4):
                    # sized by its constant
                    f.pop("size", None)
                    f.pop("pad", None)
                    if f["k"] == "bytes":
                        v = self.draw(st.binary(max_size=6))
                    else:
                        v = self.draw(texts(f["encoding"], 5))
                    f["const"] = [v]
                else:
                    v = self.value(f, {}, None)
                    if f["k"] == "float":
                        v = ref.float_from_bits(ref.float_bits(v, f["fmt"]), f["fmt"])
                    if f["k"] == "str" and f.get("pad") is not None:
                        # it's compared with the value including its padding
                        v = self.full(f)
                    f["const"] = [v]
        elif kind == "null":
            self.nullable(f)
            if f.get("null") and o["default"] and self.chance(2):
                f["default"] = [None]
        if o["discard"] and self.chance(1):
            f["discard"] = True
        return f

    def full(self, f):
        s = self.draw(texts(f["encoding"]))
        s = fit_text(s, f["size"], f["encoding"], None, f["k"] == "strz")
        if len(s.encode(f["encoding"])) != f["size"]:
            s = "a" * f["size"]
        return s

    def nullable(self, f):
        k = f["k"]
        n = ref.fixed_size(f)
        if n is not None and n > 0:
            how = self.pick(["default", "bytes", "value"])
            if how == "default":
                f["null"] = ("default",)
            elif how == "bytes" or k in ("ts", "bytes"):
                b = self.draw(st.binary(min_size=n, max_size=n))
                f["null"] = ("bytes", b)
            elif k in ("int", "uuid", "strz"):
                f["null"] = ("value", self.value(f, {}, None))
            elif k == "str":
                f["null"] = ("value", self.full(f))
            elif k == "float":
                v = self.value(f, {}, None)
                v = ref.float_from_bits(ref.float_bits(v, f["fmt"]), f["fmt"])
                if v != 0:
                    f["null"] = ("value", v)
        elif k == "vli":
            v = self.value(f, {}, None)
            if self.chance(4):
                f["null"] = ("value", v)
            else:
                f["null"] = ("bytes", ref.vli_bytes(v, f["fmt"]))
        elif k == "strz":
            v = self.draw(texts(f["encoding"], 4))
            if self.chance(4):
                f["null"] = ("value", v)
            else:
                f["null"] = ("bytes", (v + "\0").encode(f["encoding"]))

    # -- structs

    def schema(self, depth=None, top=True):
        o = self.o
        depth = o["depth"] if depth is None else depth
        names = list(self.names)
        if top:
            k = self.int(0, len(names) - 1)
            names = names[k:] + names[:k] + ["f%d" % i for i in range(200)]
        else:
            names = ["k%d" % i if i > 1 else "mn"[i] for i in range(40)]
        self_names = iter(names)

        def name():
            return next(self_names)

        lo, hi = o["groups"]
        n_groups = self.int(lo, hi) if top else self.int(1, 2)
        groups = []
        for i in range(n_groups):
            groups.append(self.group(name, depth))
        if top and o["eof"] and self.chance(1):
            f = {"k": "array", "comp": self.array_item(depth, nonempty=True)}
            f["name"] = name()
            groups.append([f])
        s = {"fields": [f for g in groups for f in g]}
        if o["inherit"] and len(groups) > 1 and self.chance(3 if o["inherit"] is True else 8):
            cuts = sorted({self.int(1, len(groups) - 1) for _ in range(self.int(1, 2 if o["inherit"] is True else 3))})
            cuts = [0] + cuts + [len(groups)]
            s = None
            for a, b in zip(cuts, cuts[1:]):
                t = {"fields": [f for g in groups[a:b] for f in g]}
                if s is not None:
                    t["base"] = s
                if o["pep526"] and self.chance(2):
                    t["style"] = "pep526"
                if o["inherit"] and self.chance(1):
                    self.mixin(t, groups)
                s = t
            return s
        if o["pep526"] and self.chance(2):
            s["style"] = "pep526"
        if o["inherit"] and self.chance(1):
            self.mixin(s, groups)
        return s

    def mixin(self, s, groups):
        """Another base class, which has annotations but no fields."""
        names = [f["name"] for g in groups for f in g]
        s["mixin"] = [self.pick(["before", "after"]),
                      self.draw(st.lists(st.sampled_from(names), max_size=3, unique=True))]

    def group(self, name, depth):
        o = self.o
        kinds = ["simple"] * 4
        if o["refs"]:
            kinds += ["sized"] * 2
            if o["array"]:
                kinds += ["counted"] * 2
        if o["cond"]:
            kinds += ["cond"] * 2
        if o["union"] and depth > 0:
            kinds += ["union"] * 2
        if o["array"]:
            kinds += ["array"]
            if o["halt"]:
                kinds += ["halt"]
            if o["refs"]:
                kinds += ["bounded"]
        if o["nested"] and depth > 0:
            kinds += ["nested"] * 2
        if o["computed"]:
            kinds += ["computed"]
        kinds += [k for k in o["more"] if k in kinds] * 5
        kind = self.pick(kinds)
        return getattr(self, "g_" + kind)(name, depth)

    def named(self, f, name):
        out = {"k": f["k"], "name": name()}
        out.update(f)
        return out

    def g_simple(self, name, depth):
        return [
            self.named(self.options(self.scalar()), name)
            for _ in range(self.int(1, 2))
        ]

    def controller(self, name, unit_=1):
        f = self.pick([
            {"k": "int", "size": 1, "signed": False},
            {"k": "int", "size": 2, "signed": True, "endian": "big"},
            {"k": "int", "size": 4, "signed": False, "endian": "little"},
            {"k": "vli", "fmt": "vlq"},
            {"k": "vli", "fmt": "leb128"},
        ] if self.o["variable"] else [
            {"k": "int", "size": 1, "signed": False},
            {"k": "int", "size": 2, "signed": True, "endian": "big"},
        ])
        return self.named(dict(f), name)

    def between(self, name):
        return [self.named(self.options(self.scalar()), name)] if self.chance(2) else []

    def g_sized(self, name, depth):
        c = self.controller(name)
        mid = self.between(name)
        k = self.pick(["bytes", "str", "strz", "bytes", "str", "array"])
        how = self.pick(["f", "n"])
        size = ["ref", c["name"], how]
        f = {"k": k}
        if k in ("str", "strz"):
            self._text(f)
        if k == "array":
            if not self.o["array"]:
                k = f["k"] = "bytes"
            else:
                f["comp"] = {"k": self.pick(["bytes", "str"]), "size": size}
                if f["comp"]["k"] == "str":
                    f["comp"]["encoding"] = "iso-8859-1"
                f["count"] = self.int(0, 3)
        if k != "array":
            f["size"] = size
        f = self.named(f, name)
        if self.o["computed"] and self.chance(3):
            if k == "bytes":
                c["computed"] = ["len", f["name"]]
            elif k == "str" and f.get("pad") is None:
                c["computed"] = ["enclen", f["name"], f["encoding"]]
        if c.get("computed") is None:
            if self.o["discard"] and self.chance(1):
                c["discard"] = True
            elif self.o["null"] and k != "array" and self.chance(2):
                # Null bytes may have another length than the field gives.
                f["null"] = ("default",)
                if self.o["loose"] and self.chance(5):
                    f["null"] = ("bytes", self.draw(st.binary(min_size=1, max_size=5)))
        return [c] + mid + [f]

    def array_item(self, depth, nonempty=False):
        if depth > 0 and self.o["nested"] and self.chance(3) and not nonempty:
            f = {"k": "nested", "struct": self.sub(depth - 1)}
            if self.o["null"] and self.chance(3):
                self.null_struct(f)
            return f
        if nonempty:
            f = self.scalar(["int", "vli", "strz"] if self.o["variable"] else ["int"])
            return f
        f = self.scalar()
        if self.chance(1):
            return {"k": "array", "comp": f, "count": self.int(0, 2)}
        if self.o["null"] and self.chance(2):
            self.nullable(f)
        return f

    def g_counted(self, name, depth):
        c = self.controller(name)
        mid = self.between(name)
        f = {"k": "array", "comp": self.array_item(depth)}
        f["count"] = ["ref", c["name"], self.pick(["f", "n"])]
        f = self.named(f, name)
        if self.o["computed"] and self.chance(4):
            c["computed"] = ["len", f["name"]]
        elif self.o["discard"] and self.chance(1):
            c["discard"] = True
        return [c] + mid + [f]

    def g_bounded(self, name, depth):
        """An array that ends where its size says."""
        comp = self.array_item(depth, nonempty=True)
        n = ref.fixed_size(comp)
        if n and self.o["null"] and self.chance(3):
            self.nullable(comp)
        if self.chance(4) and (n or comp["k"] in ("vli", "strz")):
            size = n or len(ref.enc_value(comp, "" if comp["k"] == "strz" else 0, {}, None))
            return [self.named({"k": "array", "comp": comp,
                                "size": size * self.int(0, 3 if n else 9)}, name)]
        if depth > 0 and self.o["nested"] and self.o["refs"] and self.chance(4):
            comp = {"k": "nested", "struct": {"fields": [
                {"k": "int", "name": "m", "size": 1, "signed": False},
                {"k": "bytes", "name": "n", "size": ["ref", "m", "n"]}]}}
        c = self.controller(name)
        mid = self.between(name)
        f = {"k": "array", "comp": comp, "size": ["ref", c["name"], self.pick(["f", "n"])]}
        return [c] + mid + [self.named(f, name)]

    def g_array(self, name, depth):
        f = {"k": "array", "comp": self.array_item(depth), "count": self.int(0, 4)}
        f = self.named(f, name)
        if self.o["default"] and self.chance(1):
            if not any(uses_ctx(t) for t in substructs(f)):
                f[self.pick(["default", "factory"])] = [self.value(f, {}, None)]
        return [f]

    def g_halt(self, name, depth):
        if self.chance(4):
            c = self.controller(name)
            mid = self.between(name)
            f = self.named({"k": "array", "comp": self.array_item(depth)}, name)
            f["halt"] = ["count", c["name"]]
            if self.o["computed"] and self.chance(4):
                c["computed"] = ["len", f["name"]]
            return [c] + mid + [f]
        comp = self.scalar(["int"])
        f = self.named({"k": "array", "comp": comp}, name)
        f["halt"] = ["until", self.draw(ints(comp["size"], comp["signed"]))]
        return [f]

    def g_cond(self, name, depth):
        out = []
        for_ctx = self.o["ctx"] and self.chance(5 if self.o["ctx"] == "more" else 2)
        flags = None
        if not for_ctx or self.chance(4):
            flags = self.named(
                {"k": "int", "size": self.pick([1, 2]), "signed": False,
                 "endian": "big"}, name,
            )
            if self.o["default"] and self.chance(2):
                flags["default"] = [self.int(0, 7)]
            if self.o["discard"] and self.chance(1):
                flags["discard"] = True
            out.append(flags)
        for _ in range(self.int(1, 3)):
            if self.o["nested"] and depth > 0 and self.chance(1):
                f = {"k": "nested", "struct": self.sub(depth - 1)}
            elif self.o["array"] and self.chance(1):
                f = {"k": "array", "comp": self.array_item(depth), "count": self.int(0, 2)}
            else:
                f = self.options(self.scalar())
            cond = None
            if flags is not None:
                cond = self.pick([
                    ["mask", flags["name"], 1 << self.int(0, 2)],
                    ["gt", flags["name"], self.int(0, 3)],
                ])
            if for_ctx:
                other = ["ctx", self.pick(["c0", "c1"])]
                cond = other if cond is None or self.chance(4) else ["and", cond, other]
            if self.chance(2):
                cond = ["not", cond]
            f["present"] = cond
            if self.o["npv"] and self.chance(3):
                if self.o["npv_values"] and f["k"] not in ("nested", "array"):
                    f["npv"] = [self.pick([None, self.value(f, {}, None)])]
                else:
                    f["npv"] = [None]
            out.append(self.named(f, name))
        return out

    def sub(self, depth):
        if self.structs and self.chance(2):
            s = self.pick(self.structs)
            if height(s) <= depth:
                return s
        s = self.schema(depth, top=False)
        self.structs.append(s)
        return s

    def g_nested(self, name, depth):
        f = self.named({"k": "nested", "struct": self.sub(depth - 1)}, name)
        if self.o["null"] and self.chance(1):
            self.null_struct(f)
        return [f]

    def null_struct(self, f):
        n = ref.fixed_size(f)
        if n and self.chance(4):
            f["null"] = ("default",)
        elif n:
            f["null"] = ("bytes", self.draw(st.binary(min_size=n, max_size=n)))

    def g_union(self, name, depth):
        choices = []
        for _ in range(self.int(2, 3)):
            if self.chance(4):
                choices.append(("s", self.sub(depth - 1)))
            elif self.chance(1):
                choices.append(("f", {"k": "nested", "struct": self.sub(depth - 1)}))
            else:
                choices.append(("f", self.scalar()))
        out = []
        if self.o["refs"] and self.chance(3):
            # A choice that depends on another field
            n = self.controller(name)
            choices[self.int(0, len(choices) - 1)] = ("f", self.dependent(n["name"]))
            out = [n] + self.between(name)
        if self.o["ctx"] and self.chance(5 if self.o["ctx"] == "more" else 2):
            f = {"k": "union", "choices": choices, "by": ["ctx", "u0"]}
            return out + [self.named(self.around(f, ["ctx", "c0"]), name)]
        c = self.named({"k": "int", "size": self.pick([1, 2]), "signed": False}, name)
        mid = self.between(name)
        f = {"k": "union", "choices": choices, "by": ["field", c["name"]]}
        return out + [c] + mid + [self.named(self.around(f, ["gt", c["name"], 0]), name)]

    def around(self, f, cond):
        """An array of a union, or one that depends on a condition, now and then."""
        if self.o["array"] and self.chance(1):
            f = {"k": "array", "comp": f, "count": self.int(0, 3)}
        if self.o["cond"] and self.chance(1):
            f["present"] = cond
        return f

    def dependent(self, n):
        """A field with a size or count given by the field n."""
        r = ["ref", n, self.pick(["f", "n"])]
        k = self.pick(["bytes", "str", "array"])
        if k == "array" and self.o["array"]:
            return {"k": "array", "comp": self.scalar(["int"]), "count": r}
        if k == "str":
            return {"k": "str", "encoding": "iso-8859-1", "size": r}
        return {"k": "bytes", "size": r}

    def g_computed(self, name, depth):
        src = self.named(self.scalar(["int"]), name)
        src["size"] = min(src["size"], 4)
        dst = self.named(
            {"k": "int", "size": 8, "signed": True, "endian": self.pick(["big", None]),
             "computed": ["add", src["name"], self.int(-5, 5)]}, name,
        )
        out = [src, dst]
        if self.chance(4):
            out = [dst, src]
        if self.chance(2):
            out += [self.named({
                "k": "int", "size": 2, "signed": False,
                "computed": ["const", self.int(0, 500)]}, name)]
        return out

    # -- values

    def value(self, f, env, ctx, n=None):
        draw = self.draw
        k = f["k"]
        if k == "int":
            return draw(ints(f["size"], f["signed"]))
        if k == "float":
            return draw(floats(f["fmt"]))
        if k == "vli":
            return draw(vlis(f["fmt"]))
        if k == "ts":
            return draw_ts(draw, f)
        if k == "bytes":
            size = n if n is not None else ref.size_of(f, env)
            return draw(st.binary(min_size=size, max_size=size))
        if k in ("str", "strz"):
            size = n if n is not None else ref.size_of(f, env)
            s = draw(texts(f["encoding"]))
            if size is not None:
                pad = f.get("pad")
                s = fit_text(
                    s, size, f["encoding"], pad, k == "strz",
                    pad is not None and draw(st.booleans()),
                )
            return s
        if k == "uuid":
            return draw(UUIDS)
        if k == "array":
            halt = f.get("halt")
            if halt is not None and halt[0] == "count":
                n = env[halt[1]] if n is None else n
            elif halt is not None:
                items = draw(st.lists(ints(f["comp"]["size"], f["comp"]["signed"]),
                                      max_size=4))
                return [x for x in items if x != halt[1]] + [halt[1]]
            if n is None:
                n = ref.array_count(f, env)
            if n is None and isinstance(f.get("size"), int):
                return self.elements(f["comp"], 9, ctx, f["size"])
            if n is None:
                n = self.int(0, 3)
            return [self.maybe_none(f["comp"], env, ctx) for _ in range(n)]
        if k == "nested":
            return self.values(f["struct"], ctx)
        if k == "union":
            kind, c = ref.union_choice(f, env, ctx)
            if kind == "s":
                return self.values(c, ctx)
            return self.value(c, env, ctx)
        raise AssertionError(k)

    def elements(self, f, n, ctx, size=None):
        """At most n elements, or that many that they take up exactly that many bytes."""
        out, used = [], 0
        while len(out) < n:
            v = self.maybe_none(f, {}, ctx)
            used += len(ref.enc_value(f, v, {}, ctx))
            if used > (100 if size is None else size):
                break
            out.append(v)
        if size is not None:
            sizes = [len(ref.enc_value(f, v, {}, ctx)) for v in out]
            small = "" if f["k"] == "strz" else 0
            n = ref.fixed_size(f) or len(ref.enc_value(f, small, {}, ctx))
            while n and (size - sum(sizes)) % n:
                out.pop()
                sizes.pop()
            if sum(sizes) < size:
                out += [small] * ((size - sum(sizes)) // n)
        return out

    def maybe_none(self, f, env, ctx):
        if f.get("null") is not None and self.chance(3):
            return None
        if f.get("const") is not None:
            return f["const"][0]
        return self.value(f, env, ctx)

    def values(self, s, ctx=None):
        """Values for a struct (a partial dict: fields with defaults may be left out)."""
        fs = ref.all_fields(s)
        env = {}
        want = {}
        for f in fs:
            for r, w in controllers(f):
                want.setdefault(r, 1)
                want[r] = max(want[r], w)
            if f["k"] == "array" and isinstance(f.get("size"), (list, tuple)):
                want[f["size"][1]] = ("bytes", f)
            u = f["comp"] if f["k"] == "array" else f
            if u["k"] == "union" and u["by"][0] == "field":
                want[u["by"][1]] = ("pick", len(u["choices"]))
        for f in fs:
            w = want.get(f["name"])
            if isinstance(w, tuple) and w[0] == "bytes":
                # The elements say how large it is.
                g = w[1]
                n = self.int(0, 3)
                v = env[g["name"]] = self.elements(g["comp"], n, ctx)
                env[f["name"]] = sum(len(ref.enc_value(g["comp"], x, {}, ctx)) for x in v)
            elif isinstance(w, tuple):
                env[f["name"]] = self.int(0, w[1] - 1)
            elif w is not None:
                lo = 0
                for g in fs:
                    if g.get("size") and isinstance(g["size"], list):
                        if g["size"][1] == f["name"]:
                            z = "\0" if g["k"] == "strz" else ""
                            if g["k"] in ("str", "strz"):
                                lo = max(lo, len(z.encode(g["encoding"])))
                            if g.get("null"):
                                lo = max(lo, w)
                env[f["name"]] = lo + w * self.int(0, 3)
            elif f.get("computed") is None:
                if any_flag(fs, f["name"]):
                    env[f["name"]] = self.draw(
                        st.one_of(st.integers(0, 7), ints(f["size"], f["signed"]))
                    )
        out = {}
        for f in fs:
            name = f["name"]
            if f.get("computed") is not None:
                continue
            can_omit = any(f.get(k) is not None for k in ("default", "factory", "const"))
            if can_omit and name not in want and self.chance(4):
                if f.get("default") is not None:
                    env[name] = f["default"][0]
                elif f.get("factory") is not None:
                    env[name] = f["factory"][0]
                else:
                    env[name] = f["const"][0]
                continue
            if f.get("present") and not ref.holds(f["present"], env, ctx):
                how = self.int(0, 3)
                if how == 0:
                    out[name] = ABSENT
                    continue
                if how == 1:
                    continue
            if f.get("null") is not None and self.chance(2):
                out[name] = env[name] = None
                continue
            if f.get("const") is not None:
                env[name] = f["const"][0]
            elif name not in env:
                env[name] = self.value(f, env, ctx)
            out[name] = env[name]
        return out


def any_flag(fs, name):
    def uses(c):
        if c[0] in ("mask", "gt"):
            return c[1] == name
        return any(uses(x) for x in c[1:] if isinstance(x, (list, tuple)))

    return any(f.get("present") and uses(f["present"]) for f in fs)


def controllers(f):
    """(name, unit) of the fields that give the size or count of a field."""
    s = f.get("size")
    if isinstance(s, (list, tuple)):
        yield s[1], unit(f["encoding"]) if "encoding" in f else 1
    c = f.get("count")
    if isinstance(c, (list, tuple)):
        yield c[1], 1
    if f.get("halt") is not None and f["halt"][0] == "count":
        yield f["halt"][1], 1
    if f["k"] == "array":
        yield from controllers(f["comp"])
    if f["k"] == "union":
        for kind, c in f["choices"]:
            if kind == "f":
                yield from controllers(c)


def height(s):
    out = 0
    for f in ref.all_fields(s):
        for t in substructs(f):
            out = max(out, 1 + height(t))
    return out


def substructs(f):
    if f["k"] == "nested":
        yield f["struct"]
    elif f["k"] == "array":
        yield from substructs(f["comp"])
    elif f["k"] == "union":
        for kind, c in f["choices"]:
            if kind == "s":
                yield c
            else:
                yield from substructs(c)


def walk(s):
    """All the fields of a struct and of those in it."""
    for f in ref.all_fields(s):
        yield from walk_field(f)


def walk_field(f):
    yield f
    if f["k"] == "array":
        yield from walk_field(f["comp"])
    if f["k"] == "union":
        for kind, c in f["choices"]:
            if kind == "f":
                yield from walk_field(c)
    for t in ([f["struct"]] if f["k"] == "nested" else []):
        yield from walk(t)
    if f["k"] == "union":
        for kind, c in f["choices"]:
            if kind == "s":
                yield from walk(c)


def uses_ctx(s):
    def cond(c):
        return c[0] == "ctx" or any(cond(x) for x in c[1:] if isinstance(x, (list, tuple)))

    return any(
        (f.get("present") and cond(f["present"]))
        or (f["k"] == "union" and f["by"][0] == "ctx")
        for f in walk(s)
    )


def needs_ctx(s):
    return any(f["k"] == "union" and f["by"][0] == "ctx" for f in walk(s))


def reads_to_eof(s):
    """Does the struct read on until the end of the data?"""
    return any(
        f["k"] == "array" and f.get("count") is None and f.get("halt") is None
        and f.get("size") is None
        for f in walk(s)
    )


@st.composite
def cases(draw, o=None, n_values=1, extra=None):
    """{"schema", "ctx", "values" (or a list of them), "how"}"""
    g = Gen(draw, o or DEFAULTS)
    s = g.schema()
    ctx = None
    if uses_ctx(s):
        ctx = {"c0": g.chance(4), "c1": g.chance(4), "u0": g.int(0, 1)}
        if not needs_ctx(s) and g.chance(1):
            ctx = None
    elif g.o["ctx"] and g.chance(1):
        ctx = {"unused": 1}
    ctx = g.context(ctx)
    case = {"schema": s, "ctx": ctx, "how": g.int(0, 3)}
    if n_values == 1:
        case["values"] = g.values(s, ctx)
    else:
        case["values"] = [g.values(s, ctx) for _ in range(n_values)]
    if extra is not None:
        case.update(extra(g, case))
    return case
