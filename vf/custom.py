"""Field classes as a user would write them: only _do_load and _do_dump (and, for some,
the hooks for sizes and padding), on top of the reference encoder and decoder."""
from collections.abc import Mapping

from binobj import errors, fields

from . import ref, spec
from .values import ABSENT, Violation, check

SIMPLE = ("int", "float", "vli", "ts", "bytes", "str", "strz", "uuid")


class Own(fields.Field):
    """Reads what it needs and reports missing data itself."""

    def __init__(self, spec_, log, **kw):
        self.spec = spec_
        self.log = log
        super().__init__(**kw)

    def _do_load(self, stream, context, loaded_fields):
        check(isinstance(loaded_fields, Mapping), "_do_load was given the fields %r",
              loaded_fields)
        if self.log is not None:
            self.log.append(("load", self, context, dict(loaded_fields), stream.tell()))
        f = self.spec
        data = b""
        if f["k"] in ("vli", "strz") and self.size is None:
            while True:
                try:
                    return ref._dec(f, data, 0, {}, context)[0]
                except ref.RefEOF:
                    more = stream.read(1)
                    if not more:
                        raise errors.UnexpectedEOFError(
                            field=self, size=1, offset=stream.tell()) from None
                    data += more
                except ref.RefInvalid as e:
                    raise errors.DeserializationError(str(e), field=self) from None
        size = self.get_expected_size(loaded_fields)
        if size < 0:
            raise errors.DeserializationError("negative", field=self)
        offset = stream.tell()
        data = stream.read(min(size, 2 ** 40))
        if len(data) < size:
            raise errors.UnexpectedEOFError(field=self, size=size, offset=offset)
        try:
            if f["k"] in ("bytes", "str", "strz"):
                f = {**f, "size": size}
            return ref._dec(f, data, 0, {}, context)[0]
        except ref.RefInvalid as e:
            raise errors.DeserializationError(str(e), field=self, data=data) from None

    def _do_dump(self, stream, data, context, all_fields):
        check(isinstance(all_fields, Mapping), "_do_dump was given the fields %r",
              all_fields)
        check(data is not None, "_do_dump was given None")
        if self.log is not None:
            self.log.append(("dump", self, context, all_fields, data))
        f = self.spec
        try:
            if f["k"] in ("bytes", "str", "strz"):
                out = data if f["k"] == "bytes" else (
                    data + "\0" if f["k"] == "strz" else data).encode(f["encoding"])
            else:
                out = ref.enc_value(f, data, {}, context)
        except (ref.RefInvalid, AttributeError, TypeError) as e:
            raise errors.UnserializableValueError(field=self, value=data,
                                                  reason=str(e)) from None
        half = len(out) // 2
        stream.write(out[:half])
        stream.write(out[half:])


class Sized(Own):
    """Also knows the size of any value."""

    def _size_for_value(self, value):
        f = self.spec
        if f["k"] == "bytes":
            return len(value)
        return len(ref.enc_value({**f, "size": None} if f["k"] in ("str", "strz") else f,
                                 value, {}, None))


class Padded(Sized):
    """Also pads what's too short."""

    def _add_padding(self, serialized, to_size):
        check(len(serialized) < to_size, "padding %r to %r", serialized, to_size)
        return serialized + self.spec["pad"] * (to_size - len(serialized))


class Builder(spec.Builder):
    """Uses own classes for some of the simple fields, by a bit mask."""

    def __init__(self, which, log=None, style=None, calls=None):
        super().__init__(log, style)
        self.which = which
        self.calls = calls
        self.count = 0

    def simple(self, f, kw):
        self.count += 1
        if f["k"] not in SIMPLE or not self.which >> (self.count % 7) & 1:
            return None
        kw = {k: v for k, v in kw.items() if k != "endian"}
        if "size" not in kw and f["k"] not in ("bytes", "str", "strz", "vli"):
            kw["size"] = ref.fixed_size(f)
        f = {**f, "null": None, "const": None}
        if f.get("pad") is not None:
            return Padded(f, self.calls, **kw)
        if "const" in kw and kw.get("size") is None or f["k"] == "vli":
            return Sized(f, self.calls, **kw)
        return (Own, Sized)[self.count % 2](f, self.calls, **kw)
