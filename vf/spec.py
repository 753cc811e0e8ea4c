"""Turns schema specs (plain data, see gen.py) into binobj classes and values.

Only the public, documented API of binobj is used here.
"""
import copy
from typing import Annotated

import binobj
from binobj import fields
from binobj.varints import VarIntEncoding

from .values import ABSENT, ALIKE

VLI = {
    "vlq": VarIntEncoding.VLQ,
    "uleb128": VarIntEncoding.ULEB128,
    "leb128": VarIntEncoding.LEB128,
    "compact": VarIntEncoding.COMPACT_INDICES,
}
UUIDS = {
    "v1": fields.UUIDFormat.BINARY_VARIANT_1,
    "v2": fields.UUIDFormat.BINARY_VARIANT_2,
    "canon": fields.UUIDFormat.CANONICAL_STRING,
    "hex": fields.UUIDFormat.HEX_STRING,
}
INTS = {
    (1, True): fields.Int8, (2, True): fields.Int16,
    (4, True): fields.Int32, (8, True): fields.Int64,
    (1, False): fields.UInt8, (2, False): fields.UInt16,
    (4, False): fields.UInt32, (8, False): fields.UInt64,
}
FLOATS = {"e": fields.Float16, "f": fields.Float32, "d": fields.Float64}


class Log:
    """What the callables of a struct were called with."""

    def __init__(self):
        self.calls = []

    def add(self, *args):
        self.calls.append(args)


def holds(cond, values, ctx):
    op = cond[0]
    if op == "mask":
        return values[cond[1]] & cond[2]
    if op == "not":
        return not holds(cond[1], values, ctx)
    if op == "gt":
        return values[cond[1]] > cond[2]
    if op == "ctx":
        return ctx is not None and ctx.get(cond[1])
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "and":
        return holds(cond[1], values, ctx) and holds(cond[2], values, ctx)
    raise AssertionError(op)


def compute(expr, values):
    op = expr[0]
    if op == "len":
        return len(values[expr[1]])
    if op == "enclen":
        return len(values[expr[1]].encode(expr[2]))
    if op == "add":
        return values[expr[1]] + expr[2]
    if op == "const":
        return expr[1]
    raise AssertionError(op)


class Builder:
    def __init__(self, log=None, style=None):
        self.log = log
        self.style = style
        self.memo = {}
        self.n = 0

    def struct(self, s):
        key = id(s)
        if key not in self.memo:
            # Equal schemas are one class, so that a replayed case has the same ones.
            same = repr(s)
            if same not in self.memo:
                self.memo[same] = (self._struct(s), s)
            self.memo[key] = (self.memo[same][0], s)
        return self.memo[key][0]

    def _struct(self, s):
        base = self.struct(s["base"]) if s.get("base") else binobj.Struct
        ns = dict(s.get("ns") or {})
        known = {}
        if s.get("base"):
            for f in all_fields(s["base"]):
                known[f["name"]] = getattr(base, f["name"])
        if s.get("meta"):
            ns["Meta"] = type("Meta", (), {"argument_defaults": dict(s["meta"])})
        style = self.style or s.get("style") or "assign"
        ann = {}
        for f in s["fields"]:
            obj = self.field(f, known)
            known[f["name"]] = obj
            if style == "pep526":
                ann[f["name"]] = Annotated[object, obj]
            else:
                ns[f["name"]] = obj
        self.n += 1
        name = s.get("name") or f"S{self.n}"
        bases = (base,)
        if s.get("mixin"):
            where, names = s["mixin"]
            more = type("Mixin", (), {
                "__annotations__": dict.fromkeys(names, int), "helper": lambda self: 5})
            bases = (more, base) if where == "before" else (base, more)
        if style == "pep526":
            ns["__annotations__"] = ann
            return binobj.dataclass(type(name, bases, ns))
        return type(name, bases, ns)

    def ref(self, r, known):
        if isinstance(r, (list, tuple)):
            if len(r) > 2 and r[2] == "f":
                return known[r[1]]
            return r[1]
        return r

    def field(self, f, known=None):
        known = known or {}
        k = f["k"]
        kw = {}
        if f.get("discard"):
            kw["discard"] = True
        if f.get("default") is not None:
            kw["default"] = self.arg(f, f["default"][0])
        if f.get("factory") is not None:
            v = f["factory"][0]
            kw["factory"] = lambda: copy.deepcopy(self.arg(f, v))
        if f.get("const") is not None:
            kw["const"] = f["const"][0]
        null = f.get("null")
        if null is not None:
            kw["null_value"] = fields.DEFAULT if null[0] == "default" else null[1]
        if f.get("present"):
            cond, log, name = f["present"], self.log, f.get("name")

            def present(values, ctx, stream):
                if log is not None:
                    log.add("present", name, ctx, stream)
                return holds(cond, values, ctx)

            kw["present"] = present
        if f.get("npv") is not None:
            kw["not_present_value"] = f["npv"][0]
        if f.get("validate"):
            kw["validate"] = f["validate"]
        if f.get("size") is not None and k not in ("int", "ts"):
            kw["size"] = self.ref(f["size"], known)
        if f.get("endian"):
            kw["endian"] = f["endian"]

        out = self.simple(f, kw)
        if out is not None:
            pass
        elif k == "int":
            cls = INTS.get((f["size"], f["signed"]))
            if cls is None or f.get("generic"):
                if f["signed"]:
                    out = fields.Integer(size=f["size"], **kw)
                else:
                    out = fields.UnsignedInteger(size=f["size"], **kw)
            else:
                out = cls(**kw)
        elif k == "float":
            out = FLOATS[f["fmt"]](**kw)
        elif k == "vli":
            if f.get("max") is not None:
                kw["max_bytes"] = f["max"]
            out = fields.VariableLengthInteger(vli_format=VLI[f["fmt"]], **kw)
        elif k == "ts":
            kw.update(resolution=f["res"], tz_aware=f["aware"], signed=f["signed"])
            if f["size"] == 4 and not f.get("generic"):
                out = fields.Timestamp32(**kw)
            elif f["size"] == 8 and not f.get("generic"):
                out = fields.Timestamp64(**kw)
            else:
                out = fields.Timestamp(size=f["size"], **kw)
        elif k == "bytes":
            out = fields.Bytes(**kw)
        elif k in ("str", "strz"):
            if not f.get("default_encoding"):
                kw["encoding"] = f["encoding"]
            if f.get("pad") is not None:
                kw["pad_byte"] = f["pad"]
            out = (fields.String if k == "str" else fields.StringZ)(**kw)
        elif k == "uuid":
            out = fields.UUID4(stored_as=UUIDS[f["stored"]], **kw)
        elif k == "array":
            comp = self.field(f["comp"], known)
            if f.get("count") is not None:
                kw["count"] = self.ref(f["count"], known)
            if f.get("halt") is not None:
                how, sentinel, log = *f["halt"], self.log

                def halt(array, stream, values, ctx, loaded):
                    if log is not None:
                        log.add("halt", ctx, stream, dict(loaded))
                    if how == "count":
                        return len(values) >= loaded[sentinel]
                    return bool(values) and values[-1] == sentinel

                kw["halt_check"] = halt
            out = fields.Array(comp, **kw)
        elif k == "nested":
            out = fields.Nested(self.struct(f["struct"]), **kw)
        elif k == "union":
            choices = [
                self.struct(c) if kind == "s" else self.field(c, known)
                for kind, c in f["choices"]
            ]
            by, log = f["by"], self.log

            def decide(what):
                def decider(data, options, ctx, values):
                    if log is not None:
                        log.add(what, data, options, ctx, values)
                    i = values[by[1]] if by[0] == "field" else ctx[by[1]]
                    return options[i]

                return decider

            out = fields.Union(
                *choices, load_decider=decide("load"), dump_decider=decide("dump"), **kw
            )
        else:
            raise AssertionError(k)
        if f.get("computed") is not None:
            expr = f["computed"]
            out.computes(lambda _field, values: compute(expr, values))
        return out

    def simple(self, f, kw):
        """A field of another class instead of the built-in one, or None."""

    # --- values --------------------------------------------------------------

    def once(self, items):
        """An iterator instead of a list."""
        return iter(items)

    def arg(self, f, v, how=0, env=None, ctx=None):
        """A plain value of one field as binobj wants it.

        how: 0 - nested structs as dictionaries, 1 - as instances, 2 - instances at
        the first level only, 3 - arrays as tuples, numbers and texts as instances of
        subclasses of int and str and nested structs as instances of subclasses,
        4 - arrays as iterators, which can be dumped once, and structs as dictionaries,
        5 - the same, with structs as instances.
        """
        if v is ABSENT:
            return fields.NOT_PRESENT
        if v is None:
            return None
        k = f["k"]
        if k == "array":
            out = [self.arg(f["comp"], x, how, env, ctx) for x in v]
            return tuple(out) if how == 3 else self.once(out) if how in (4, 5) else out
        if k == "nested":
            return self._sub(f["struct"], v, how, ctx)
        if k == "union":
            by = f["by"]
            i = (env or {}).get(by[1]) if by[0] == "field" else ({} if ctx is None else ctx).get(by[1])
            if i is None or not 0 <= i < len(f["choices"]):
                return v
            kind, c = f["choices"][i]
            if kind == "s":
                return self._sub(c, v, how, ctx)
            return self.arg(c, v, how, env, ctx)
        if isinstance(v, (list, dict)):
            return copy.deepcopy(v)
        if how == 3 and type(v) in ALIKE:
            return ALIKE[type(v)](v)
        return v

    def _sub(self, s, v, how, ctx):
        if how == 3:
            # An instance of a subclass is one of the struct, too.
            cls = self.struct(s)
            if ("kid", cls) not in self.memo:
                self.memo["kid", cls] = type(cls.__name__ + "Kid", (cls,), {}), s
            return self.memo["kid", cls][0](**self.kwargs(s, v, 3, ctx))
        if how in (1, 2, 3, 5):
            return self.make(s, v, {1: 1, 2: 0, 3: 3, 5: 5}[how], ctx)
        return self.kwargs(s, v, how, ctx)

    def kwargs(self, s, values, how=0, ctx=None):
        by_name = {f["name"]: f for f in all_fields(s)}
        env = dict(values)
        for n, f in by_name.items():
            for key in ("default", "factory", "const"):
                if n not in env and f.get(key) is not None:
                    env[n] = f[key][0]
        sized = {
            f["computed"][1] for f in by_name.values() if (f.get("computed") or [0])[0] == "len"
        }
        # The order in which values are given doesn't matter.
        items = list(values.items())[::-1] if how in (1, 5) else values.items()
        return {
            n: self.arg(by_name[n], v, 0 if how in (4, 5) and n in sized else how, env, ctx)
            if n in by_name else v
            for n, v in items
        }

    def make(self, s, values, how=0, ctx=None):
        return self.struct(s)(**self.kwargs(s, values, how, ctx))


def all_fields(s):
    base = s.get("base")
    return (all_fields(base) if base else []) + s["fields"]
