"""C30: the functions that fields are built of keep to exactly their bytes of a stream."""
import io
import sys

from binobj import errors, helpers, varints
from hypothesis import strategies as st

from .. import gen, ref
from ..common import eq, eq_bytes, raising
from ..runner import Sub
from ..values import check
from .c03 import readable

RULE = (
    "Histories of calls of the functions in binobj.helpers and of the integer encodings in"
    " binobj.varints on one stream (in memory, buffered, a file) that already has content:"
    " writing and reading integers of 0-40 bytes, peeking, iterating over part of the"
    " bytes, decoding variable-length integers, at any position, also past the end and with"
    " values that don't fit. Oracle: a list of bytes and a position, and arithmetic."
    " Non-trivial: at least two operations that move within the stream."
)

FMTS = {"vlq": "VLQ", "compact": "COMPACT_INDICES", "leb128": "LEB128", "uleb128": "ULEB128"}
NAMES = {"vlq": "vlq", "compact": "compact", "leb128": "leb128", "uleb128": "uleb128"}


def info(fmt):
    return varints.INTEGER_ENCODING_MAP[getattr(varints.VarIntEncoding, FMTS[fmt])]


def coder(fmt, what, way):
    """The function by its name or from the table."""
    if way:
        return getattr(info(fmt), what)
    return getattr(varints, "%s_integer_%s" % (what, NAMES[fmt]))


class Model:
    def __init__(self, data, pos):
        self.data = bytearray(data)
        self.pos = pos

    def rest(self, n=None):
        end = len(self.data) if n is None else self.pos + n
        return bytes(self.data[self.pos:end])

    def read(self, n):
        out = self.rest(n)
        self.pos += len(out)
        return out

    def write(self, b):
        if b and self.pos > len(self.data):
            self.data += b"\0" * (self.pos - len(self.data))
        self.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)


def number(b, signed, order):
    """The value of bytes, by arithmetic."""
    v = 0
    for x in b if order == "big" else reversed(b):
        v = v * 256 + x
    if signed and b and v >= 1 << (8 * len(b) - 1):
        v -= 1 << (8 * len(b))
    return v


def digits(v, n, signed, order):
    """The bytes of a value, or None if they're too few."""
    lo = -(1 << (8 * n - 1)) if signed and n else 0
    hi = (1 << (8 * n - (1 if signed else 0))) if n else 1
    if not lo <= v < hi:
        return None
    v %= 1 << (8 * n)
    out = []
    for _ in range(n):
        out.append(v % 256)
        v //= 256
    return bytes(out if order == "little" else reversed(out))


def history(case):
    m = Model(case["data"], 0)
    moves = 0
    with readable(case["stream"], case["data"]) as s:
        s.seek(0)
        for i, op in enumerate(case["ops"]):
            kind = op["op"]
            what = "%d. %s" % (i, kind)
            order = op["order"] or sys.byteorder
            n = op["n"]
            kw = {} if op["order"] is None else {"endian": op["order"]}
            before = m.pos
            if kind == "seek":
                m.pos = n % (len(m.data) + 1)
                s.seek(m.pos)
            elif kind == "read":
                b = m.rest(n)
                if len(b) < n:
                    with raising(errors.UnexpectedEOFError, "%s %d of %r", what, n, b) as e:
                        helpers.read_int(s, n, op["signed"], **kw)
                    eq(getattr(e.caught, "offset", None), m.pos, "%s: the offset", what)
                    eq(getattr(e.caught, "size", None), n, "%s: the size", what)
                    s.seek(m.pos)
                else:
                    got = helpers.read_int(s, n, op["signed"], **kw)
                    eq(got, number(m.read(n), op["signed"], order), what)
            elif kind == "write":
                b = digits(op["v"], n, op["signed"], order)
                if b is None:
                    with raising(OverflowError, "%s %d in %d bytes", what, op["v"], n):
                        helpers.write_int(s, op["v"], n, op["signed"], **kw)
                else:
                    helpers.write_int(s, op["v"], n, op["signed"], **kw)
                    m.write(b)
            elif kind == "peek":
                if op["short"] is False and len(m.rest(n)) < n:
                    with raising(EOFError, "%s %d of %r", what, n, m.rest(n)):
                        helpers.peek_bytes(s, n, False)
                else:
                    args = (n,) if op["short"] is None else (n, op["short"])
                    eq_bytes(helpers.peek_bytes(s, *args), m.rest(n), what)
            elif kind == "iter":
                top = op["top"]
                it = helpers.iter_bytes(s) if top is None else helpers.iter_bytes(s, top)
                full = m.rest(top)
                for k in range(n):
                    check(s.tell() == m.pos, "%s: at %s instead of %s after %d bytes", what,
                          s.tell(), m.pos, k)
                    b = next(it, None)
                    if k < len(full):
                        eq_bytes(b, full[k:k + 1], "%s, byte %d" % (what, k))
                        m.pos += 1
                    else:
                        check(b is None, "%s: %r after the last byte", what, b)
            elif kind == "decode":
                fn = coder(op["fmt"], "decode", op["way"])
                try:
                    v, end = ref.vli_value(bytes(m.data), m.pos, op["fmt"])
                except ref.RefEOF:
                    with raising(errors.UnexpectedEOFError, "%s %r", what, m.rest()):
                        fn(s)
                    s.seek(m.pos)
                else:
                    eq(fn(s), v, "%s of %r" % (what, m.rest(20)))
                    m.pos = end
            else:
                fn = coder(op["fmt"], "encode", op["way"])
                try:
                    b = ref.vli_bytes(op["v"], op["fmt"])
                except ref.RefInvalid:
                    with raising(ValueError, "%s %d as %s", what, op["v"], op["fmt"]):
                        fn(op["v"])
                else:
                    got = fn(op["v"])
                    eq_bytes(got, b, "%s %d as %s" % (what, op["v"], op["fmt"]))
                    if m.pos + len(b) <= len(m.data) + 20:
                        s.write(got)
                        m.write(b)
            check(s.tell() == m.pos, "%s: at %s instead of %s", what, s.tell(), m.pos)
            moves += m.pos != before
        s.seek(0)
        eq_bytes(s.read(), bytes(m.data), "what the stream holds")
    return moves > 1


class Timeout(Exception):
    pass


FAILURES = [OSError, ValueError, RuntimeError, EOFError, Timeout]


class Sparse(io.BytesIO):
    """A stream that fails."""

    def __init__(self, data, at, exc):
        super().__init__(data)
        self.at = at
        self.exc = exc

    def read(self, n=-1):
        out = super().read(n)
        self.at -= 1
        if self.at < 0:
            raise self.exc("broken")
        return out


def failing(case):
    """Peeking returns to where it was even if reading fails."""
    exc = FAILURES[case["exc"]]
    s = Sparse(case["data"], case["at"], exc)
    s.seek(case["pos"])
    for i in range(case["at"]):
        n = case["n"]
        eq_bytes(helpers.peek_bytes(s, n), case["data"][case["pos"]:case["pos"] + n], "peek")
    with raising(exc, "a broken stream"):
        helpers.peek_bytes(s, case["n"])
    check(s.tell() == case["pos"], "at %s instead of %s", s.tell(), case["pos"])
    return case["pos"] > 0


@st.composite
def _history(draw):
    g = gen.Gen(draw, gen.opts())
    ops = []
    for _ in range(g.int(1, 12)):
        op = {"op": g.pick(["read", "write", "peek", "iter", "decode", "encode", "seek"]),
              "order": g.pick([None, "big", "little"]), "signed": g.chance(4),
              "n": g.int(0, 9) if g.chance(6) else g.int(0, 40)}
        if op["op"] == "peek":
            op["short"] = g.pick([None, True, False])
        elif op["op"] == "iter":
            op["top"] = g.pick([None, None, g.int(0, 9)])
        elif op["op"] in ("decode", "encode"):
            op["fmt"] = g.pick(sorted(FMTS))
            op["way"] = g.int(0, 1)
        if op["op"] == "write":
            # Python itself accepts -1 in no bytes.
            op["n"] = max(op["n"], 1)
        if op["op"] in ("write", "encode"):
            bits = g.pick([0, 1, 6, 7, 8, 13, 14, 15, 16, 8 * op["n"] - 1, 8 * op["n"],
                           g.int(0, 130)])
            v = (1 << max(bits, 0)) + g.pick([-1, 0, 1, g.int(-9, 9)])
            op["v"] = -v if g.chance(3) else v
        ops.append(op)
    data = b"".join(draw(st.lists(st.one_of(
        st.binary(max_size=6), st.sampled_from([b"\x80", b"\xff", b"\x40", b"\0", b"\x7f"])),
        max_size=8)))
    return {"data": data, "ops": ops, "stream": g.pick([0, 0, 2, 3])}


_failing = st.builds(
    lambda data, pos, n, at, exc: {"data": data, "pos": pos % (len(data) + 1), "n": n,
                                   "at": at, "exc": exc},
    st.binary(max_size=9), st.integers(0, 9), st.integers(0, 12), st.integers(0, 3),
    st.integers(0, len(FAILURES) - 1))

SUBS = [
    Sub("history", _history(), history, n=4000),
    Sub("failing", _failing, failing, n=400),
]
