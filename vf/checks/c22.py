"""C22: struct-level argument defaults apply unless a field overrides them."""
import io
import itertools

import binobj
from binobj import decorators, errors, fields
from hypothesis import strategies as st

from .. import gen, ref, spec
from ..common import eq, eq_bytes, raising
from ..runner import Sub
from ..values import ABSENT, check, plain
from .c21 import describe, outcome

RULE = (
    "Structs of one to six fields of all classes and of classes derived from them, each"
    " passing any subset of its byte order, encoding, default and null value itself, in"
    " structs whose Meta gives any mixture of general and class-specific values for them"
    " (for classes that don't occur, too), declared among others, by assignment or"
    " annotations, with parents, children and nested structs with options of their own."
    " Oracle: the documented precedence applied to the arguments, the class declared with"
    " these and no Meta, and the independent encoder. Non-trivial: at least one option"
    " comes from Meta."
)


class Mine16(fields.UInt16):
    pass


class MineZ(fields.StringZ):
    pass


class MineF(fields.Float32):
    pass


# class: (spec, other required arguments, options)
INT = ("endian", "default", "null_value")
TXT = ("encoding", "default", "null_value")
ANY = ("default", "null_value")
KINDS = {
    "Int16": ({"k": "int", "size": 2, "signed": True}, {}, INT),
    "UInt16": ({"k": "int", "size": 2, "signed": False}, {}, INT),
    "Mine16": ({"k": "int", "size": 2, "signed": False}, {}, INT),
    "Int32": ({"k": "int", "size": 4, "signed": True}, {}, INT),
    "UInt32": ({"k": "int", "size": 4, "signed": False}, {}, INT),
    "Int64": ({"k": "int", "size": 8, "signed": True}, {}, INT),
    "UInt64": ({"k": "int", "size": 8, "signed": False}, {}, INT),
    "Int8": ({"k": "int", "size": 1, "signed": True}, {}, INT),
    "UInt8": ({"k": "int", "size": 1, "signed": False}, {}, INT),
    "Integer": ({"k": "int", "size": 3, "signed": True}, {"size": 3}, INT),
    "UnsignedInteger": ({"k": "int", "size": 5, "signed": False}, {"size": 5}, INT),
    "Float16": ({"k": "float", "fmt": "e"}, {}, INT),
    "Float32": ({"k": "float", "fmt": "f"}, {}, INT),
    "MineF": ({"k": "float", "fmt": "f"}, {}, INT),
    "Float64": ({"k": "float", "fmt": "d"}, {}, INT),
    "Timestamp": ({"k": "ts", "size": 5, "res": "s", "aware": True, "signed": True},
                  {"size": 5, "tz_aware": True}, INT),
    "Timestamp32": ({"k": "ts", "size": 4, "res": "ms", "aware": True, "signed": True},
                    {"resolution": "ms", "tz_aware": True}, INT),
    "Timestamp64": ({"k": "ts", "size": 8, "res": "us", "aware": True, "signed": True},
                    {"resolution": "us", "tz_aware": True}, INT),
    "String": ({"k": "str", "size": 8}, {"size": 8, "pad_byte": b" "}, TXT),
    "StringZ": ({"k": "strz"}, {}, TXT),
    "MineZ": ({"k": "strz"}, {}, TXT),
    "Bytes": ({"k": "bytes", "size": 3}, {"size": 3}, ANY),
    "UUID4": ({"k": "uuid", "stored": "v1"}, {}, ANY),
    "VariableLengthInteger": ({"k": "vli", "fmt": "vlq"},
                              {"vli_format": spec.VLI["vlq"]}, ANY),
}
CUSTOM = {"Mine16": Mine16, "MineZ": MineZ, "MineF": MineF}
TEXT = ["iso-8859-1", "utf-8", "utf-16-le", "utf-16-be", "cp037", "utf-32-le"]
UNSIZED = ("StringZ", "MineZ", "VariableLengthInteger")


OTHERS = {"endian": "big", "encoding": "utf-16-be", "default": None, "null_value": b"?"}


def resolve(kind, args, meta, computed=False):
    """The arguments that take effect."""
    out = dict(args)
    for o in KINDS[kind][2]:
        if o in out or o == "default" and ("const" in out or "factory" in out or computed):
            continue
        if kind + "__" + o in meta:
            out[o] = meta[kind + "__" + o]
        elif o in meta:
            out[o] = meta[o]
    return out


def arg(o, v):
    if o == "null_value" and v == "DEFAULT":
        return fields.DEFAULT
    if o == "factory":
        return lambda: v
    return v


def build(kind, args):
    cls = CUSTOM.get(kind) or getattr(fields, kind)
    return cls(**KINDS[kind][1], **{o: arg(o, v) for o, v in args.items()})


def as_spec(f, args):
    s = {**KINDS[f["kind"]][0], "name": f["name"]}
    if s["k"] in ("str", "strz"):
        s["encoding"] = args.get("encoding", "iso-8859-1")
        if s["k"] == "str":
            s["pad"] = b" "
    elif args.get("endian"):
        s["endian"] = args["endian"]
    for o in ("default", "factory", "const"):
        if o in args:
            s[o] = [args[o]]
    n = args.get("null_value")
    if n is not None:
        s["null"] = ("default",) if n == "DEFAULT" else (
            "bytes" if isinstance(n, bytes) else "value", n)
    size = ref.fixed_size(s)
    if isinstance(n, bytes) and size is not None and len(n) != size:
        # Null bytes of another size than the field's are padded or refused.
        pad = s.get("pad") if len(n) < size else None
        s["null"] = pad and ("bytes", n + pad * (size - len(n)))
    return s


def declare(name, fs, args, meta, base, style, via="own"):
    """args: one dictionary per field; meta: None for no Meta

    via: where Meta has the defaults from: "own", "base" - from a class it inherits from,
    "override" - that class has others, "parent" - from the parent's Meta
    """
    ns = {}
    if meta is not None:
        own = {"argument_defaults": {k: arg(k.rpartition("__")[2], v)
                                     for k, v in meta.items()}}
        bases = ()
        if via == "base":
            bases, own = (type("Options", (), own),), {}
        elif via == "override":
            bases = (type("Options", (), {"argument_defaults": OTHERS}),)
        elif via == "parent":
            bases, own = (base.Meta,), {"something": 1}
        ns["Meta"] = type("Meta", bases, own)
    objs = {f["name"]: build(f["kind"], a) for f, a in zip(fs, args)}
    for f in fs:
        if f.get("computed") is not None:
            v = f["computed"][0]
            objs[f["name"]].computes(lambda *_, v=v: v)
    if style == "pep526":
        ns["__annotations__"] = objs
        return binobj.dataclass(type(name, (base,), ns))
    return type(name, (base,), {**ns, **objs})


def meta_defaults(case):
    structs = []
    used = False
    made = []
    for i, s in enumerate(case["structs"]):
        parent = None
        if s["base"] is not None and structs:
            parent = structs[s["base"] % len(structs)]
        # A child without a Meta of its own has its parent's, like any attribute.
        meta, via = s["meta"], s.get("via", "own")
        if via in ("parent", "none") and (
                parent is None or parent["meta"].get("default") is not None
                or parent["meta"].get("null_value") == "DEFAULT"):
            via = "own"     # Those don't suit all fields.
        if via in ("parent", "none"):
            meta = parent["meta"]
        resolved = [resolve(f["kind"], f["args"], meta, f.get("computed") is not None)
                    for f in s["fields"]]
        used = used or any(r != f["args"] for r, f in zip(resolved, s["fields"]))
        fs = [{**f, "name": "f%d_%d" % (i, j)} for j, f in enumerate(s["fields"])]
        cls = declare("M%d" % i, fs, [f["args"] for f in s["fields"]],
                      None if via == "none" else meta,
                      parent["cls"] if parent else binobj.Struct, s["style"], via)
        plain_cls = declare("M%d" % i, fs, resolved, None if not parent else {},
                            parent["plain"] if parent else binobj.Struct, "assign")
        structs.append({
            "cls": cls, "plain": plain_cls, "meta": meta,
            "fields": (parent["fields"] if parent else []) + fs,
            "spec": (parent["spec"] if parent else [])
            + [as_spec(f, r) | ({"computed": ["const", f["computed"][0]]}
                                if f.get("computed") is not None else {})
               for f, r in zip(fs, resolved)],
        })
        made.append(i)
    # All of them, now that all are declared
    for i, s in enumerate(structs):
        names = [f["name"] for f in s["fields"]]
        what = "struct %d" % i
        eq(describe(s["cls"], names), describe(s["plain"], names), what + ": fields")
        schema = {"fields": s["spec"]}
        rows = [{f["name"]: f["values"][r] for f in s["fields"]} for r in (0, 1)]
        rows += [{k: None for k in names}, {}]
        rows += [{n: rows[0][n] for n in names if n != m} for m in names]
        rows += [{n: None if n == m else rows[1][n] for n in names} for m in names]
        for row in rows:
            for f in s["fields"]:
                if "const" in f["args"]:
                    row.pop(f["name"], None)
            got = outcome(lambda: s["cls"](**row).to_bytes())
            eq(got, outcome(lambda: s["plain"](**row).to_bytes()),
               "%s: dumping %r" % (what, row))
            try:
                want = ref.enc_struct(schema, row, None)
            except ref.RefMissing:
                want = "MissingRequiredValueError"
            except ref.RefInvalid:
                want = None
            if want is not None:
                eq(got, want, "%s: the bytes of %r", what, row)
            if isinstance(got, bytes):
                a = outcome(lambda: s["cls"].from_bytes(got))
                eq(a, outcome(lambda: s["plain"].from_bytes(got)),
                   "%s: loading %r" % (what, got))
        eq(outcome(lambda: s["cls"].from_bytes(case["junk"], exact=False)),
           outcome(lambda: s["plain"].from_bytes(case["junk"], exact=False)),
           "%s: loading %r" % (what, case["junk"]))
        # Inside another struct
        outer = type("Outer", (binobj.Struct,), {
            "Meta": type("Meta", (), {"argument_defaults": {
                "endian": "big", "encoding": "utf-16-be", "default": None}}),
            "inner": fields.Nested(s["cls"]), "n": fields.UInt16()})
        got = outcome(lambda: s["plain"](**rows[0]).to_bytes())
        if isinstance(got, bytes):
            eq_bytes(outer(inner=rows[0], n=1).to_bytes(), got + b"\0\1", what + ", nested")
    return used


@st.composite
def _case(draw):
    g = gen.Gen(draw, gen.opts())

    def option(kind, o):
        k = KINDS[kind][0]
        if o == "endian":
            return g.pick(["big", "little"])
        if o == "encoding":
            return g.pick(TEXT)
        if o == "default":
            return None if g.chance(1) else value(kind)
        if kind in UNSIZED:
            if k["k"] == "vli":
                return ref.vli_bytes(g.int(0, 500), "vlq")
            return g.pick([b"\0", b"N\0", b"\0\0"])
        n = ref.fixed_size({**k, "encoding": "ascii"})
        return g.pick(["DEFAULT", b"\xff" * n, b"\0" * n])

    def value(kind):
        k = dict(KINDS[kind][0])
        if k["k"] in ("str", "strz"):
            return draw(st.text(st.sampled_from("ab1 Z"), max_size=2))
        return g.value(k, {}, None)

    structs = []
    for i in range(g.int(1, 3)):
        fs = []
        for _ in range(g.int(1, 4 if i else 6)):
            kind = g.pick(sorted(KINDS))
            args = {o: option(kind, o) for o in KINDS[kind][2] if g.chance(2)}
            if "endian" in args and g.chance(1):
                args["endian"] = None
            f = {"kind": kind, "args": args, "values": [value(kind), value(kind)]}
            extra = g.int(0, 11)
            if "default" not in args:
                if extra == 0:
                    args["factory"] = value(kind)
                elif extra == 1 and KINDS[kind][0]["k"] in ("int", "bytes", "uuid"):
                    args["const"] = value(kind)
                elif extra == 2 and KINDS[kind][0]["k"] == "int":
                    f["computed"] = [g.int(0, 9)]
            fs.append(f)
        meta = {}
        kinds = sorted({f["kind"] for f in fs})
        if g.chance(4):
            meta["endian"] = g.pick(["big", "little"])
        if g.chance(4):
            meta["encoding"] = g.pick(TEXT)
        if g.chance(2):
            meta["null_value"] = "DEFAULT" if not set(kinds) & set(UNSIZED) else b"\0"
        if g.chance(2):
            ks = {KINDS[kind][0]["k"] for kind in kinds}
            meta["default"] = g.pick(
                [None] + ([0, 1] if ks <= {"int", "vli", "float"} else [])
                + (["", "q"] if ks <= {"str", "strz"} else []))
        for kind in kinds + [g.pick(sorted(KINDS))]:
            for o in KINDS[kind][2]:
                if g.chance(2):
                    meta[kind + "__" + o] = option(kind, o)
        if g.chance(2):
            meta["unknown_option"] = 1
            meta["Nothing__endian"] = "big"
        structs.append({"fields": fs, "meta": meta,
                        "via": g.pick(["own", "own", "base", "override", "parent", "none"]),
                        "base": g.int(0, 2) if g.chance(3) else None,
                        "style": g.pick(["assign", "assign", "pep526"])})
    return {"structs": structs, "junk": draw(st.binary(min_size=30, max_size=80))}


SUBS = [Sub("meta", _case(), meta_defaults, n=3000)]
