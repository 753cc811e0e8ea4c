"""An independent reading of the wire format: encodes and decodes schema specs.

Nothing in here uses binobj.  A schema is plain data (see gen.py); `enc_struct` gives the
bytes the documentation says a struct must have, `dec_struct` the values that bytes mean.
"""
import codecs
import datetime
import sys
import uuid
from fractions import Fraction

from .values import ABSENT, same


class RefError(Exception):
    pass


class RefEOF(RefError):
    """Not enough data."""


class RefInvalid(RefError):
    """The data (or value) is not allowed by the declaration."""


class RefMissing(RefError):
    """No value can be derived."""


class RefTooLong(RefError):
    """It would take too long."""


LIMIT = 20000


class Env(dict):
    """Values of the fields of a struct; a value that isn't there is missing."""

    def __missing__(self, key):
        raise RefMissing(key)


UNITS = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


# --- scalars ---------------------------------------------------------------------


def order(endian):
    return endian or sys.byteorder


def int_bytes(v, size, signed, endian):
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1))) if signed else (
        0, 1 << (8 * size))
    if size == 0:
        lo, hi = 0, 1
    if not lo <= v < hi:
        raise RefInvalid("integer out of range")
    v %= 1 << (8 * size)
    out = []
    for _ in range(size):
        out.append(v & 255)
        v >>= 8
    if order(endian) == "big":
        out.reverse()
    return bytes(out)


def int_value(b, signed, endian):
    if order(endian) == "little":
        b = b[::-1]
    v = 0
    for x in b:
        v = v * 256 + x
    if signed and b and b[0] & 0x80:
        v -= 1 << (8 * len(b))
    return v


FLOATS = {"e": (5, 10), "f": (8, 23), "d": (11, 52)}


def float_bits(x, fmt):
    """IEEE 754 round-to-nearest-even encoding of a Python float or int, as an int."""
    ebits, mbits = FLOATS[fmt]
    bias = (1 << (ebits - 1)) - 1
    emax = (1 << ebits) - 1
    if isinstance(x, float):
        if x != x:
            return None
        neg = str(x)[0] == "-"
        if x in (float("inf"), float("-inf")):
            return (int(neg) << (ebits + mbits)) | (emax << mbits)
    else:
        neg = x < 0
    m = abs(Fraction(x))
    sign = int(neg) << (ebits + mbits)
    if m == 0:
        return sign
    # exponent of the leading bit
    e = m.numerator.bit_length() - m.denominator.bit_length()
    if Fraction(2) ** e > m:
        e -= 1
    e = max(e, 1 - bias)
    scaled = m / Fraction(2) ** (e - mbits)
    n = scaled.numerator // scaled.denominator
    rest = scaled - n
    if rest > Fraction(1, 2) or (rest == Fraction(1, 2) and n & 1):
        n += 1
    if n >= 1 << (mbits + 1):
        n >>= 1
        e += 1
    if n < 1 << mbits:  # subnormal
        return sign | n
    if e > bias:
        raise RefInvalid("float too large")
    return sign | ((e + bias) << mbits) | (n - (1 << mbits))


def float_from_bits(bits, fmt):
    ebits, mbits = FLOATS[fmt]
    bias = (1 << (ebits - 1)) - 1
    emax = (1 << ebits) - 1
    sign = -1.0 if bits >> (ebits + mbits) else 1.0
    e = (bits >> mbits) & emax
    m = bits & ((1 << mbits) - 1)
    if e == emax:
        return float("nan") if m else sign * float("inf")
    if e == 0:
        v = Fraction(m) * Fraction(2) ** (1 - bias - mbits)
    else:
        v = (Fraction(m) + (1 << mbits)) * Fraction(2) ** (e - bias - mbits)
    return sign * float(v)


def float_size(fmt):
    return sum(FLOATS[fmt]) // 8 + 1 if fmt != "e" else 2


FLOAT_SIZE = {"e": 2, "f": 4, "d": 8}


def vli_bytes(v, fmt):
    if fmt in ("vlq", "uleb128") and v < 0:
        raise RefInvalid("negative")
    if fmt == "leb128":
        out = []
        while True:
            b = v & 0x7F
            v >>= 7
            if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
                out.append(b)
                return bytes(out)
            out.append(b | 0x80)
    if fmt == "uleb128":
        out = []
        while True:
            b = v & 0x7F
            v >>= 7
            if not v:
                out.append(b)
                return bytes(out)
            out.append(b | 0x80)
    sign = 0
    if fmt == "compact":
        sign = 0x40 if v < 0 else 0
        v = abs(v)
    groups = []
    limit = 0x3F if fmt == "compact" else 0x7F
    while v > limit:
        groups.append(v & 0x7F)
        v >>= 7
    groups.append(v | sign)
    groups.reverse()
    return bytes([g | 0x80 for g in groups[:-1]] + [groups[-1]])


def vli_value(data, pos, fmt):
    end = pos
    while True:
        if end >= len(data):
            raise RefEOF()
        end += 1
        if not data[end - 1] & 0x80:
            break
    groups = [b & 0x7F for b in data[pos:end]]
    if fmt in ("leb128", "uleb128"):
        v = sum(g << (7 * i) for i, g in enumerate(groups))
        if fmt == "leb128" and groups[-1] & 0x40:
            v -= 1 << (7 * len(groups))
        return v, end
    if fmt == "compact":
        neg = groups[0] & 0x40
        v = groups[0] & 0x3F
        for g in groups[1:]:
            v = v * 128 + g
        return (-v if neg else v), end
    v = 0
    for g in groups:
        v = v * 128 + g
    return v, end


def ts_count(dt, res):
    """Whole units since the epoch, toward zero. Naive datetimes: local time."""
    if dt.tzinfo is None:
        whole = dt.replace(microsecond=0).timestamp()
        us = int(whole) * 10**6 + dt.microsecond
    else:
        d = dt - EPOCH
        us = (d.days * 86400 + d.seconds) * 10**6 + d.microseconds
    n = Fraction(us * UNITS[res], 10**6)
    q = abs(n.numerator) // n.denominator
    return q if us >= 0 else -q


def ts_value(n, res, aware):
    us = Fraction(n * 10**6, UNITS[res])
    us = round(us)
    secs, micro = divmod(us, 10**6)
    try:
        tz = datetime.timezone.utc if aware else None
        return datetime.datetime.fromtimestamp(secs, tz).replace(microsecond=micro)
    except (OverflowError, ValueError, OSError):
        raise RefInvalid("date out of range") from None


UNIT = {
    "utf-16": 2, "utf-16-le": 2, "utf-16-be": 2,
    "utf-32": 4, "utf-32-le": 4, "utf-32-be": 4,
}


def strz_end(data, pos, limit, encoding):
    """Position just after the first terminator, or None."""
    w = UNIT.get(encoding, 1)
    i = pos
    while i + w <= limit:
        if not any(data[i:i + w]):
            return i + w
        i += w
    return None


def needs_bom(data, encoding):
    if encoding in ("utf-16", "utf-32"):
        n = UNIT[encoding]
        if data[:n] not in ("\ufeff".encode(encoding + "-le"), "\ufeff".encode(encoding + "-be")):
            raise RefInvalid("byte order mark")


# --- fields ----------------------------------------------------------------------


def fixed_size(f):
    """The constant number of bytes of a field, or None."""
    k = f["k"]
    if k == "int":
        return f["size"]
    if k == "float":
        return FLOAT_SIZE[f["fmt"]]
    if k == "uuid":
        return {"v1": 16, "v2": 16, "canon": 36, "hex": 32}[f["stored"]]
    if k in ("ts", "bytes", "str", "strz"):
        s = f.get("size")
        if isinstance(s, int):
            return s
        if s is None and f.get("const"):
            if k == "bytes":
                return len(f["const"][0])
            if k == "str":
                return len(f["const"][0].encode(f["encoding"]))
            if k == "strz":
                return len((f["const"][0] + "\0").encode(f["encoding"]))
        return None
    if k == "vli":
        if f.get("const"):
            return len(vli_bytes(f["const"][0], f["fmt"]))
        return None
    if k == "array":
        n = fixed_size(f["comp"])
        if isinstance(f.get("count"), int) and n is not None:
            return n * f["count"]
        return f["size"] if isinstance(f.get("size"), int) else None
    if k == "nested":
        return struct_fixed_size(f["struct"])
    return None


def struct_fixed_size(s):
    total = 0
    for f in all_fields(s):
        n = fixed_size(f)
        if n is None or f.get("present"):
            return None
        total += n
    return total


def all_fields(s):
    base = s.get("base")
    return (all_fields(base) if base else []) + s["fields"]


def size_of(f, env):
    n = fixed_size(f)
    if n is not None:
        return n
    s = f.get("size")
    if isinstance(s, (list, tuple)):
        return env[s[1]]
    return None


def null_repr(f, env):
    n = f.get("null")
    if n is None:
        return None
    if n[0] == "bytes":
        return n[1]
    if n[0] == "value":
        return enc_value(f, n[1], env, None)
    size = size_of(f, env)
    if size is None:
        raise RefInvalid("no size for null")
    if size >= 2 ** 24:
        if size < 2 ** 60:
            raise RefTooLong()
        return None    # Nothing's that long
    return b"\0" * size


def holds(cond, env, ctx, peek=None):
    """Evaluate a presence condition."""
    op = cond[0]
    if op == "mask":
        return bool(env[cond[1]] & cond[2])
    if op == "not":
        return not holds(cond[1], env, ctx, peek)
    if op == "gt":
        return env[cond[1]] > cond[2]
    if op == "ctx":
        return bool(ctx is not None and ctx.get(cond[1]))
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "and":
        return holds(cond[1], env, ctx, peek) and holds(cond[2], env, ctx, peek)
    raise AssertionError(op)


def compute(expr, env):
    """Evaluate the expression of a computed field."""
    op = expr[0]
    if op == "len":
        return len(env[expr[1]])
    if op == "enclen":
        return len(env[expr[1]].encode(expr[2]))
    if op == "add":
        return env[expr[1]] + expr[2]
    if op == "const":
        return expr[1]
    raise AssertionError(op)


def enc_value(f, v, env, ctx):
    """The bytes of one value of one field (which is present)."""
    if v is None:
        r = null_repr(f, env)
        if r is None:
            raise RefInvalid("None is not allowed")
        return r
    k = f["k"]
    if k == "int":
        return int_bytes(v, f["size"], f["signed"], f.get("endian"))
    if k == "float":
        bits = float_bits(v, f["fmt"])
        if bits is None:
            raise RefInvalid("nan has many encodings")
        return int_bytes(bits, FLOAT_SIZE[f["fmt"]], False, f.get("endian"))
    if k == "vli":
        out = vli_bytes(v, f["fmt"])
        if f.get("max") is not None and len(out) > f["max"]:
            raise RefInvalid("too long")
        return out
    if k == "ts":
        return int_bytes(ts_count(v, f["res"]), f["size"], f["signed"], f.get("endian"))
    if k == "bytes":
        if len(v) != size_of(f, env):
            raise RefInvalid("size")
        return bytes(v)
    if k in ("str", "strz"):
        out = (v + "\0" if k == "strz" else v).encode(f["encoding"])
        size = size_of(f, env)
        if size is not None:
            if len(out) > size or (len(out) < size and f.get("pad") is None):
                raise RefInvalid("size")
            out += (f.get("pad") or b"") * (size - len(out))
        return out
    if k == "uuid":
        h = v.hex
        if f["stored"] == "hex":
            return h.encode()
        if f["stored"] == "canon":
            return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])).encode()
        b = bytes.fromhex(h)
        if f["stored"] == "v2":
            b = b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]
        return b
    if k == "array":
        n = array_count(f, env)
        v = list(v)
        if n is not None and n != len(v):
            raise RefInvalid("array size")
        out = b"".join(enc_value(f["comp"], x, env, ctx) for x in v)
        if f.get("size") is not None and len(out) != size_of(f, env):
            raise RefInvalid("size")
        return out
    if k == "nested":
        return enc_struct(f["struct"], v, ctx)
    if k == "union":
        kind, choice = union_choice(f, env, ctx)
        if kind == "s":
            return enc_struct(choice, v, ctx)
        return enc_value(choice, v, env, ctx)
    raise AssertionError(k)


def array_count(f, env):
    c = f.get("count")
    if c is None or isinstance(c, int):
        return c
    return env[c[1]]


def union_choice(f, env, ctx):
    by = f["by"]
    i = env[by[1]] if by[0] == "field" else ({} if ctx is None else ctx)[by[1]]
    if not isinstance(i, int) or not -len(f["choices"]) <= i < len(f["choices"]):
        raise RefInvalid("no such choice")
    return f["choices"][i]


def effective(s, values, ctx):
    """All the values a struct has when dumped: explicit, default, const or computed.

    Absent fields are ABSENT.  Raises RefMissing if a field has no value.
    """
    env = Env()
    later = []
    fs = all_fields(s)
    for f in fs:
        name = f["name"]
        if name in values:
            env[name] = values[name]
        elif f.get("default") is not None:
            env[name] = f["default"][0]
        elif f.get("factory") is not None:
            env[name] = f["factory"][0]
        elif f.get("const") is not None:
            env[name] = f["const"][0]
        elif f.get("computed") is not None:
            later.append(f)
        else:
            later.append(f)
    for f in later:
        if f.get("computed") is not None:
            env[f["name"]] = compute(f["computed"], env)
    for f in fs:
        if f.get("present") and not holds(f["present"], env, ctx):
            env[f["name"]] = ABSENT
    for f in fs:
        if f["name"] not in env:
            raise RefMissing(f["name"])
    return env


def enc_parts(s, values, ctx=None):
    """[(name, bytes or None if absent)] in order."""
    env = effective(s, values, ctx)
    out = []
    for f in all_fields(s):
        if env[f["name"]] is ABSENT:
            out.append((f["name"], None))
        else:
            out.append((f["name"], enc_value(f, env[f["name"]], env, ctx)))
    return out


def enc_struct(s, values, ctx=None):
    return b"".join(b or b"" for _, b in enc_parts(s, values, ctx))


def take(data, pos, n):
    if n < 0:
        raise RefInvalid("negative size")
    if pos + n > len(data):
        raise RefEOF()
    return data[pos:pos + n], pos + n


def dec_field(f, data, pos, env, ctx):
    """(value, new position) of a struct's field, present or not."""
    if f.get("present") and not holds(f["present"], env, ctx):
        npv = f.get("npv")
        return (ABSENT if npv is None else npv[0]), pos
    return dec_value(f, data, pos, env, ctx)


def dec_value(f, data, pos, env, ctx, check_null=True):
    if check_null and f.get("null") is not None:
        r = null_repr(f, env)
        if r is not None and data[pos:pos + len(r)] == r:
            return None, pos + len(r)
    v, pos = _dec(f, data, pos, env, ctx)
    if check_null and f.get("null") is not None and f["null"][0] == "value":
        if v == f["null"][1]:
            v = None
    if f.get("const") is not None and not _eq(v, f["const"][0]):
        raise RefInvalid("const")
    return v, pos


def _eq(a, b):
    return a == b


def _dec(f, data, pos, env, ctx):
    k = f["k"]
    if k == "int":
        b, pos = take(data, pos, f["size"])
        return int_value(b, f["signed"], f.get("endian")), pos
    if k == "float":
        b, pos = take(data, pos, FLOAT_SIZE[f["fmt"]])
        return float_from_bits(int_value(b, False, f.get("endian")), f["fmt"]), pos
    if k == "vli":
        v, end = vli_value(data, pos, f["fmt"])
        if f.get("const") and v == f["const"][0] and end - pos != fixed_size(f):
            raise RefInvalid("size")
        return v, end
    if k == "ts":
        b, pos = take(data, pos, f["size"])
        return ts_value(int_value(b, f["signed"], f.get("endian")), f["res"], f["aware"]), pos
    if k == "bytes":
        b, pos = take(data, pos, size_of(f, env))
        return bytes(b), pos
    if k == "str":
        b, pos = take(data, pos, size_of(f, env))
        return text(b, f["encoding"]), pos
    if k == "strz":
        size = size_of(f, env)
        if size is not None:
            b, pos = take(data, pos, size)
            end = strz_end(b, 0, len(b), f["encoding"])
            if end is None:
                raise RefInvalid("no terminator")
            needs_bom(b, f["encoding"])
            return text(b[:end], f["encoding"])[:-1], pos
        end = strz_end(data, pos, len(data), f["encoding"])
        if end is None:
            try:
                codecs.getincrementaldecoder(f["encoding"])().decode(bytes(data[pos:]))
            except (UnicodeError, ValueError):
                raise RefInvalid("text") from None
            raise RefEOF()
        needs_bom(data[pos:end], f["encoding"])
        return text(data[pos:end], f["encoding"])[:-1], end
    if k == "uuid":
        st = f["stored"]
        b, pos = take(data, pos, {"v1": 16, "v2": 16, "canon": 36, "hex": 32}[st])
        if st == "v1":
            return uuid.UUID(hex=b.hex()), pos
        if st == "v2":
            b = b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]
            return uuid.UUID(hex=b.hex()), pos
        try:
            return uuid.UUID(hex=b.decode("ascii")), pos
        except ValueError:
            raise RefInvalid("uuid") from None
    if k == "array":
        out = []
        n = array_count(f, env)
        halt = f.get("halt")
        size, start = size_of(f, env) if f.get("size") is not None else None, pos
        while True:
            if size is not None and n is None and pos - start >= size:
                break
            if halt is not None and halt[0] == "count":
                if len(out) >= env[halt[1]]:
                    break
            elif halt is not None:
                if out and same(out[-1], halt[1]):
                    break
            elif n is not None:
                if len(out) >= n:
                    break
            elif pos >= len(data):
                break
            before = pos
            v, pos = dec_value(f["comp"], data, pos, env, ctx)
            out.append(v)
            if len(out) > LIMIT:
                raise RefTooLong()
            if pos == before and n is None and (halt is None or halt[0] != "count"):
                raise RefInvalid("endless array")
        if size is not None and pos - start != size:
            if pos - start < size and pos >= len(data):
                raise RefEOF()
            raise RefInvalid("size")
        return out, pos
    if k == "nested":
        return dec_struct(f["struct"], data, pos, ctx)
    if k == "union":
        kind, choice = union_choice(f, env, ctx)
        if kind == "s":
            return dec_struct(choice, data, pos, ctx)
        return _dec(choice, data, pos, env, ctx)
    raise AssertionError(k)


def text(b, encoding):
    try:
        return bytes(b).decode(encoding)
    except (UnicodeError, ValueError):
        raise RefInvalid("text") from None


def dec_all(s, data, pos=0, ctx=None, stops=None):
    """(values of all fields incl. discarded ones, end). stops: list to fill with the
    position after each field."""
    env = {}
    for f in all_fields(s):
        env[f["name"]], pos = dec_field(f, data, pos, env, ctx)
        if stops is not None:
            stops.append((f["name"], pos))
    return env, pos


def kept(s, env):
    return {f["name"]: env[f["name"]] for f in all_fields(s) if not f.get("discard")}


def dec_struct(s, data, pos=0, ctx=None):
    env, pos = dec_all(s, data, pos, ctx)
    return kept(s, env), pos
