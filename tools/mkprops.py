"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, os

S = "binobj/structures.py"
B = "binobj/fields/base.py"
C = "binobj/fields/containers.py"
N = "binobj/fields/numeric.py"
T = "binobj/fields/stringlike.py"
V = "binobj/varints.py"
H = "binobj/helpers.py"
P = "binobj/pep526.py"
D = "binobj/decorators.py"
E = "binobj/errors.py"

PROPS = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        anchors["state"] = state
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why, "anchors": anchors,
    })


p("C01", "A struct's bytes are exactly its declared fields' encodings in order",
  "Dumping a struct writes, in declaration order (inherited fields first), the documented encoding of each field that is present - byte width and order, text encoding, terminator, padding, null representation, array elements, nested structs - with no separators, alignment or other bytes. "
  "All ways of dumping (to_bytes, to_stream, bytes(), and dumping the same values through a dict of a nested struct) give the same bytes. "
  "A struct's bytes therefore depend only on the declaration, the values and the context.",
  ["inputs", "programs"],
  "for every struct declaration built from the built-in fields (nested, arrays, unions, conditional, sized-by-other) and every assignment of legal values",
  "The tests pin about a hundred hand-written declarations with one or two values each; field combinations, byte orders, widths and options interact and their product is not sampled.",
  [S, B, C, N, T], [("Struct.to_stream", S), ("Field.to_stream", B), ("*._do_dump", C)],
  ["Struct.to_bytes", "Struct.to_stream", "bytes(struct)"])

p("C02", "Loading what was dumped returns the same values, and re-dumps identically",
  "Loading the bytes of a dumped struct yields, for every field that is not discarded, a value equal to the one dumped, at the precision and padding the field stores it with (an absent field loads as its not-present value, a discarded field is left out). "
  "Dumping the loaded struct again reproduces the identical bytes whenever the values of its discarded fields can be supplied by defaults. "
  "to_dict() of any struct, loaded or built from instances, mappings and sequences of any"
  " kind, gives the same values as plain dictionaries and lists all the way down.",
  ["inputs", "programs"],
  "for every declaration whose decoding is unambiguous and every assignment of legal values",
  "Round trips are tested on a few fixed structs; loss that needs a particular value in a particular neighbourhood (padding, null sentinels, encodings, counts) is invisible to them.",
  [S, B, C, N, T], [("Struct.from_stream", S), ("Field.from_stream", B), ("*._do_load", C), ("Struct.to_dict", S)],
  ["Struct.from_bytes", "Struct.from_stream", "Struct.to_dict"])

p("C03", "Loading and dumping touch exactly the struct's own bytes of a stream",
  "Loading from a stream consumes exactly the bytes of that struct or field starting at the current position, wherever that is and whatever precedes or follows, and leaves the stream positioned just after them. "
  "Dumping writes only at the current position, so records written one after another to one stream load back one after another. "
  "from_stream on a stream and from_bytes on any bytes-like object holding the same bytes give the same result.",
  ["inputs", "programs"],
  "for every declaration, values, stream prefix and suffix, and sequence of records",
  "Almost all tests start at offset 0 of a BytesIO that holds exactly one record; peeks, seeks and end-of-data tests only misbehave with other data around.",
  [S, B, C, T, H], [("peek_bytes / seek on null", H), ("Array.should_halt", C), ("Field._read_exact_size", B)],
  ["stream.tell() after load/dump", "Struct.from_stream", "Field.from_stream"])

p("C04", "Truncated input and leftover input are never silently accepted",
  "Loading a struct or field from any strict prefix of its serialization raises a deserialization error (an end-of-file error when bytes ran out), unless the declaration itself reads to end-of-file. "
  "With exact loading (the default) any bytes left over after the struct or field raise ExtraneousDataError; with exact=False they are ignored and the same value is returned.",
  ["inputs", "programs"],
  "for every declaration and values, every cut point of the serialization, and every non-empty suffix",
  "The tests truncate or extend a handful of fixed inputs by a fixed amount; one extra byte after a struct was accepted for years without a failing test.",
  [S, B, C, N, T, H, V], [("exact handling", S), ("exact handling", B), ("_read_exact_size", B), ("helpers.read_int", H)],
  ["Struct.from_bytes", "Field.from_bytes", "raised error type"])

p("C05", "Reported sizes and offsets are the real ones",
  "When a struct class reports a size, every instance serializes to exactly that many bytes, and it does report one when all its fields are of fixed size and unconditional; len(instance) is the length of the instance's serialization, also when fields are marked as not present. "
  "When a field reports a byte offset, its encoding starts at that offset in every serialization, and it does report one when everything before it is of fixed size and unconditional; its index is its position in the declaration. "
  "A nested field's, fixed-count array's or constant's reported size is the number of bytes it writes.",
  ["inputs", "programs"],
  "for every declaration (inherited, nested, conditional, variable-length) and every instance",
  "Tests check sizes for a few fixed-size structs; size bookkeeping is separate from serialization, so only comparison over arbitrary declarations exposes a disagreement.",
  [S, B, C, P, T], [("StructMetadata.get_size", S), ("Struct.__len__", S), ("collect_assigned_fields offset accounting", S), ("Field.get_expected_size", B)],
  ["Struct.get_size()", "len(struct)", "Field.offset", "Field.index", "Field.size"])

p("C06", "Reading one field gives the value a full load gives",
  "Reading a single field by name from a stream returns the value a full load of the struct at that position gives that field, wherever the struct starts, and whether the field is at a fixed or a variable offset. "
  "The stream is returned to its original position, also when the read fails. "
  "Unknown names raise ValueError and insufficient data raises an end-of-file error.",
  ["inputs", "programs"],
  "for every declaration, every field in it, every serialization, and every stream position",
  "get_field is tested on two small structs; fixed-offset shortcuts and the partial-load fallback diverge for sized-by-other, conditional and later fields.",
  [S, B, C], [("Struct.get_field", S), ("Field.offset", S)],
  ["Struct.get_field", "stream.tell()"])

p("C07", "A partial load returns exactly the complete leading fields",
  "Partially loading up to a named field returns the values a full load gives for the fields up to and including it, and leaves the stream just after it, regardless of what follows. "
  "Without a named field, loading from truncated data returns exactly the fields that are completely present and leaves the stream at the end of the last complete field; if the data stops short of a named field an end-of-file error is raised.",
  ["inputs", "programs"],
  "for every declaration, serialization, cut point and last field",
  "Tests cut two structs at one or two points; the outcome depends on which field the cut falls in and on how that field kind detects end of data.",
  [S, B, T, C], [("Struct.partial_load", S)],
  ["Struct.partial_load", "stream.tell()"])

p("C08", "A partial dump is a prefix of the full dump",
  "Partially dumping a struct up to a named field writes exactly the leading bytes of the full serialization up to the end of that field, for complete structs. "
  "Without a named field, an incomplete struct is dumped up to but not including the first field for which no value can be derived, and a complete one entirely; with a named field, a missing value on the way raises MissingRequiredValueError.",
  ["inputs", "programs"],
  "for every declaration, every subset of assigned fields and every last field",
  "Tests cover only plain integer fields with all preceding values assigned; computed, conditional, null and size-dependent fields take different paths.",
  [S, B], [("Struct.partial_dump", S), ("Field.compute_value_for_dump", B)],
  ["Struct.partial_dump output"])

p("C09", "Fixed-width integers are exact two's complement in the declared byte order",
  "An integer field of n bytes maps each value in its range to its n-byte two's-complement (or unsigned) representation in the declared byte order and back, for every width, and maps every n-byte string to a value that dumps to the same bytes. "
  "A value outside the range is rejected with a serialization error, never wrapped or truncated.",
  ["inputs", "configurations"],
  "for every width, signedness, byte order and every integer",
  "Tests use a few values per class; boundary and odd-width behaviour and the big/little/native combinations are not covered.",
  [N, H], [("Integer._do_dump/_do_load", N), ("read_int/write_int", H)],
  ["Int*/UInt*/Integer fields", "helpers.read_int/write_int"])

p("C10", "Variable-length integers follow their format exactly for all magnitudes",
  "Each variable-length integer format (VLQ, ULEB128, LEB128, compact indices) encodes every integer it supports as the shortest canonical encoding of that format, decodes it to the same integer consuming exactly those bytes, and decodes every well-formed encoding, also padded ones, to the value the format defines; only a field of fixed size (such as a constant) takes no encoding of another size. "
  "Negative numbers in unsigned formats and encodings longer than the declared maximum are rejected with a serialization error, and an encoding cut short raises an end-of-file error.",
  ["inputs"],
  "for every integer of any magnitude and sign, every format, and every continuation-bit byte sequence",
  "Tests use around forty fixed vectors; group-boundary arithmetic (7, 6+7k, 14 bits...) and sign extension can be wrong for magnitudes no vector hits.",
  [V, N], [("encode_/decode_integer_*", V), ("VariableLengthInteger", N)],
  ["varints functions", "VariableLengthInteger field"])

p("C11", "Floats use the IEEE-754 interchange format in the declared byte order",
  "A float field writes the IEEE-754 binary16/32/64 encoding (rounded to nearest even) of its value in the declared byte order and loads every bit pattern to the number it denotes; loading and dumping preserves every non-NaN bit pattern including signed zeros, subnormals and infinities. "
  "A finite value too large for the format, or a non-number, is rejected with a serialization error.",
  ["inputs", "configurations"],
  "for every bit pattern, every number, each width and each byte order",
  "Tests check pi-like constants; rounding, subnormals, infinities, signed zero and overflow are untested.",
  [N], [("Float._do_dump/_do_load", N)],
  ["Float16/Float32/Float64 fields"])

p("C12", "Timestamps denote the same instant at the declared resolution",
  "A timestamp field stores the whole number of resolution units between the Unix epoch and the given instant (sub-unit parts dropped toward zero), in the declared width (a number, or what another field says), signedness and byte order, exactly, for any zone of the datetime and with naive datetimes read as local time. "
  "Loading returns the datetime of exactly that instant, aware in UTC or naive in local time as declared, and dumping it again gives the same bytes for any resolution a datetime can express. Instants that do not fit the width are rejected with a serialization error.",
  ["inputs", "configurations"],
  "for every representable instant, resolution, width, signedness, byte order, zone and process time zone",
  "Tests use a few recent instants on one machine zone at whole seconds; precision loss depends on magnitude and sub-second digits.",
  [N], [("Timestamp._do_dump/_do_load", N)],
  ["Timestamp/Timestamp32/Timestamp64 fields"])

p("C13", "Text, bytes and UUID fields encode faithfully and never truncate",
  "Fixed-size strings and bytes occupy exactly their declared size: the encoded value, padded with the pad byte only if one is declared; a value too long, or too short with no padding, is rejected with ValueSizeError and nothing is written. Those declared without a size are dumped as their encoded value alone, whatever its length. "
  "Null-terminated strings are the encoded text followed by that encoding's terminator, and load back the text before the first terminator for any supported encoding, sized or not, consuming exactly their bytes. "
  "UUIDs use the declared one of the four storage formats.",
  ["inputs", "configurations"],
  "for every text, encoding, declared size, pad byte, byte string and UUID",
  "Tests use short ASCII-like samples in a few encodings; multi-byte, stateful and boundary-length texts behave differently.",
  [T, B, H], [("String/_encode_and_resize", T), ("StringZ._do_load", T), ("UUID4", T), ("Field._add_padding", B)],
  ["String/StringZ/Bytes/UUID4 fields"])

p("C14", "None is stored as the declared null value and read back as None",
  "A field declared nullable dumps None as its null value - the given bytes, the encoding of the given value, or all zero bytes for the default - and loading those bytes gives None and consumes exactly them; any other bytes load as a normal value (unless they too encode the declared null value), also when the stream ends within the length of the null bytes; a field of fixed size pads null bytes like any value, and refuses those of another size. "
  "A field with no null value rejects None with a serialization error and never loads None.",
  ["inputs", "programs"],
  "for every field kind, null representation, value and surrounding bytes",
  "Tests try a few field kinds with one null value each; whether the null peek mis-fires depends on neighbouring bytes, sizes and the end of the stream.",
  [B, H], [("Field._get_null_repr", B), ("null peek in Field.from_stream", B), ("peek_bytes", H)],
  ["Field.to_bytes(None)", "Struct load"])

p("C15", "Conditional fields are present exactly when their condition says so",
  "A conditional field is written if and only if its condition is true for the values being dumped and the context, and read if and only if it is true for the values loaded so far, the context and the stream; otherwise it takes no bytes and loads as its not-present value. "
  "The caller's context object reaches conditions, union deciders, array halt checks and nested structs unchanged on both load and dump. "
  "Sizes, offsets, validation and later fields treat an absent field as occupying nothing.",
  ["inputs", "programs"],
  "for every placement of conditional fields, every condition over earlier values and context, and every context",
  "Tests use one conditional field at the end of one struct and no context-dependent dump.",
  [B, S, C], [("Field.compute_value_for_dump", B), ("present check in Field.from_stream", B), ("Struct.to_stream", S)],
  ["Struct dump/load", "recorded callback arguments"])

p("C16", "Explicit, default, factory, constant and computed values follow one order",
  "The value dumped for a field is the explicitly given one (also for discarded fields, and also when it is falsy or None), else its default or a fresh factory result or its constant, else its computed value for the values being dumped; with none of these dumping raises MissingRequiredValueError and writes nothing for that field. "
  "Reading the field as an attribute, as an item, or through to_dict() gives the same value as the dump. "
  "Constant and computed fields cannot be assigned once the struct exists, and a constant mismatch on load is a ValidationError. What a factory or computing function raises comes out unchanged.",
  ["inputs", "programs", "histories"],
  "for every combination of the value sources on each field and every subset of assigned fields",
  "Tests check each source in isolation; the precedence between them and the agreement of the read paths is not sampled.",
  [B, S], [("Field.compute_value_for_dump", B), ("Field.default", B), ("Field.__get__/__set__", B), ("Struct.to_dict", S)],
  ["struct attributes, items, to_dict, to_bytes"])

p("C17", "No value a validator rejects can be loaded, dumped or assigned",
  "Field validators run on the field's deserialized value: those given as arguments whenever a field is loaded or dumped and when it is assigned, methods of the struct on full loads and dumps of it; struct validators run on full loads and dumps too; an exception from any of them reaches the caller. "
  "A dump rejected by the struct's methods writes nothing and a rejected assignment leaves the struct unchanged; an absent conditional field is not validated. "
  "Subclasses inherit validators, and validators they add never affect the parent or siblings.",
  ["inputs", "programs"],
  "for every placement of validators on a class hierarchy, every value and every entry point",
  "Tests attach one or two validators to one struct; isolation and coverage across entry points and inheritance are not quantified.",
  [S, B, D], [("Struct.validate_contents", S), ("bind_validators_to_struct", S), ("Field.to_stream/from_stream validators", B), ("@validates/@validates_struct", D)],
  ["exceptions on load/dump/assign", "recorded validator calls"])

p("C18", "Arrays hold exactly the declared number of elements",
  "An array writes its elements' encodings in order and rejects any iterable, sized or not, whose length differs from the declared count (constant or given by another field) with ArraySizeError. "
  "Loading reads exactly that many elements, or until its halt check says stop, or, when no count is declared, to where its size says or else to the end of the stream; a size is enforced when dumping and loading; absent elements are skipped, and a negative number means none. "
  "No element is dropped, duplicated, reordered or shared between loads.",
  ["inputs", "programs"],
  "for every component kind, count form, length (zero included) and iterable kind",
  "Tests use small integer arrays; generators, zero counts, nested arrays and off-by-one lengths in each count form are not crossed.",
  [C], [("Array._do_dump/_dump_unsized", C), ("Array._do_load", C), ("Array.should_halt", C)],
  ["Array field via struct and directly"])

p("C19", "Unions and nested structs delegate exactly to the chosen declaration",
  "A union field writes exactly the bytes that the choice its decider returns would write on its own, and reads them back at that position to the value that choice gives, for struct and field choices, given dicts or struct instances; its decider sees the data or stream, all the choices, the context and the other fields. "
  "A nested field dumps and loads exactly as its struct class would on its own, from dicts or instances, to any depth. "
  "A decider's choice that is neither a field nor a struct is rejected with TypeError.",
  ["inputs", "programs"],
  "for every set of choices, deciders, values and nesting depth",
  "Tests use one two-choice union each way and single-level nesting.",
  [C], [("Union._do_dump/_do_load", C), ("Nested._do_dump/_do_load", C)],
  ["Union/Nested fields via struct and directly"])

p("C20", "Struct inheritance extends the parent, and bad declarations are refused",
  "A struct subclass has its parent's fields first with the same names, order and encoding, then its own, and declaring subclasses changes nothing observable about the parent or siblings. "
  "Redefining an inherited field, inheriting from two structs, mixing declaration styles, conflicting default and factory, and the other documented misconfigurations raise the documented error at declaration time.",
  ["programs"],
  "for every chain or tree of struct declarations and every misconfiguration in it",
  "Tests use single parent/child pairs; leaks between siblings and deep chains are not explored.",
  [S, B, P, T, N, E], [("StructMetadata.from_class", S), ("collect_assigned_fields", S), ("dataclass", P), ("constructor checks", B)],
  ["class creation", "behaviour of parent before and after subclassing"])

p("C21", "Annotation-style declarations behave like assignment-style ones",
  "A struct declared with the dataclass decorator and annotations (field class, field instance, Annotated, Optional, nested struct class, default values, inherited) has the same fields, sizes, offsets, defaults, null handling, validators, bytes and loads as the equivalent class declared by assignment.",
  ["programs", "inputs"],
  "for every struct expressible in both styles and every assignment of legal values",
  "Tests compare single fields against literals and never compare the two declaration styles over the same data.",
  [P, S], [("dataclass", P), ("AnnotationInfo", P)],
  ["struct behaviour through the public API"])

p("C22", "Struct-level argument defaults apply unless a field overrides them",
  "A default declared in a struct's Meta for an option (general, or specific to a field class) takes effect on every field of that struct with that option that did not pass it explicitly, the class-specific one winning, exactly as if it had been passed to the field. "
  "An explicitly passed option always wins, and the defaults of one struct never affect fields of another.",
  ["configurations", "programs"],
  "for every mixture of general and class-specific defaults, explicit arguments and field kinds",
  "Tests cover integer byte order on two fields; other options and the isolation between structs are not covered.",
  [S, B, N, T], [("Field.bind_to_container", B), ("load_meta_options", S), ("__overrideable_attributes__", N)],
  ["bytes of structs with Meta defaults"])

p("C23", "A struct behaves as a mapping of its explicitly set fields",
  "Reading, assigning, deleting and iterating fields by item, by attribute and through the mapping proxies all act on the same values; iteration gives exactly the set fields (one assigned UNDEFINED is not set), unknown names raise KeyError, and constructors reject unknown names. "
  "The proxies satisfy the mapping contract (keys, items, length, containment, update, pop agree with one another). "
  "Two structs, or a struct and a mapping, are equal exactly when their set values are equal, nested structs comparing as dictionaries.",
  ["histories"],
  "for every sequence of reads, assignments, deletions and comparisons on a struct and its proxies",
  "Tests perform isolated single operations; agreement of the views after arbitrary histories is not explored.",
  [S, B], [("Struct container methods", S), ("StructMappingProxy/MutableStructMappingProxy", S), ("Field.__get__/__set__", B)],
  ["struct items/attributes/iteration/equality", "proxy mapping methods"])

p("C24", "Serialization never changes structs, and failed operations leave no trace",
  "Dumping, sizing, converting, comparing and reading never change a struct or the objects it holds, so repeating any of them gives the same result after any history of operations. "
  "Instances are independent of each other, of the declaration and of the buffers they were loaded from, and loading or dumping one never affects another. "
  "Copies (copy.copy, copy.deepcopy, pickle) of a struct are equal to it, dump to the same bytes, and can be changed without changing it. "
  "A field dump that fails writes no bytes, and after any failed operation the struct dumps as it did before; what a condition, decider or halt check raises comes out unchanged.",
  ["histories", "fault_sequences"],
  "for every interleaving of operations, including failing ones, over several instances of one declaration",
  "Tests run one operation per fresh instance; hidden sharing or caching shows only in longer histories with failures.",
  [S, B, C], [("Field.to_stream buffering", B), ("Struct.to_dict copies", S), ("per-instance values", S)],
  ["repeated to_bytes/to_dict/len/==", "bytes written on failure"])

p("C25", "Any byte string loads to a stable value or is refused cleanly",
  "For any bytes at all, loading a struct either returns a struct whose dump, when it succeeds, loads back to the same values and then dumps to the same bytes (setting aside null values and what the struct discards), or raises a deserialization or validation error, or a decoding error of the standard library for malformed text or out-of-range dates. "
  "It agrees byte for byte with an independent reading of the declared format on acceptance, value and bytes consumed, terminates, and repeating the load gives the same outcome.",
  ["inputs", "programs"],
  "for every declaration and every byte string, well-formed or not",
  "Tests feed hand-made valid inputs and a few malformed ones; random and mutated inputs are never tried.",
  [S, B, C, N, T, V, H], [("Struct.from_stream", S), ("Field.from_stream", B), ("varint decoders", V)],
  ["Struct.from_bytes on arbitrary bytes"])

p("C26", "A user's own field classes work exactly like the built-in ones",
  "A field class that only defines how to read and write a value (_do_load, _do_dump) can be used wherever a built-in one can - in structs, arrays, unions, nullable, constant, default, computed, discarded, conditional, or sized by a number or another field - with the same layout, round trip, sizes, partial and single-field access. "
  "Its methods are never called for None or an absent field, get the caller's context, and are given the fields already loaded (loading) or about to be dumped (dumping) as a mapping. "
  "A value whose encoding is longer than the declared size is refused, a shorter one is padded by _add_padding() or refused, sizes of constants come from _size_for_value(), and an exception from its methods comes out unchanged with nothing of that field written. "
  "Options it lists as overridable get their defaults from the struct's Meta.",
  ["inputs", "programs"],
  "for every declaration mixing such classes with built-in ones, every assignment of values, any declared size and any encoded length",
  "Tests define three or four custom fields and use each in one way; how the base class combines them with nulls, sizes, conditions, arrays and unions isn't sampled.",
  [B, C, S], [("Field.from_stream/to_stream", B), ("Field.get_expected_size", B), ("Field._add_padding", B), ("Field.bind_to_container", B)],
  ["bytes and values of structs with custom fields", "arguments of _do_load/_do_dump"])

p("C27", "Errors name the field, value or position that is to blame",
  "When loading fails with a deserialization error its field is the field of the loaded struct that couldn't be read, and a validation error for a constant names the constant field and the value found. "
  "When dumping fails the error's field is the field whose value is missing, too long, out of range, not nullable or an array of the wrong length; with the given value for an integer, bytes or null, and the expected and given numbers of elements for an array. "
  "Errors about unknown names list exactly these and the struct, assignments to constant or computed fields name the field, leftover input of a struct gives the offset where the struct ends, a truncated number, date, bytes or string of a given size gives the position in the stream where it starts and its size, and errors in declarations name the struct and field.",
  ["inputs", "programs"],
  "for every declaration, every malformed input, and every single wrong, missing or unexpected value",
  "Tests check the type of errors almost everywhere and their attributes in a few places, always with one candidate to blame.",
  [S, B, C, N, T, E], [("Field.from_stream's error handling", B), ("Array._do_dump", C), ("Struct.__init__", S), ("StructMetadata.from_class", S)],
  ["field, value, names, struct, n_expected, n_given, offset of raised errors"])

p("C28", "Arguments given when loading reach the constructor and override loaded values",
  "Everything in init_kwargs is passed to the constructor of the loaded struct, once: additional arguments of subclasses as given, and field values instead of those in the data, also where other fields' sizes, counts, conditions or choices depend on them. "
  "The overridden fields are still read from the data, so that the bytes consumed, truncation and leftovers are the same as ever; discarded fields are discarded. "
  "The dictionary given and what it holds are neither changed nor shared with the struct. Unknown names are refused.",
  ["inputs", "programs"],
  "for every declaration, data, and any subset of its fields with additional arguments",
  "There are three tests of init_kwargs on one struct of three fields.",
  [S], [("Struct.from_stream", S), ("Struct.from_bytes", S)],
  ["Struct.from_stream(init_kwargs=)", "Struct.from_bytes(init_kwargs=)"])

p("C29", "A field by itself does what it does in its struct, and says so",
  "A field taken from a struct class, given the values of the other fields and the context, dumps a value to exactly its part of the struct's serialization and loads that part back to the value a full load gives, from any position of a stream and whatever follows, refusing leftover bytes unless told otherwise; a field that belongs to no struct does the same. "
  "Dumping nothing with it dumps its default or constant, or is refused when there is none. "
  "What it says of itself - name, index, default, constant, required, allow_null, is_computed_field, discard, fixed size - is what dumping the struct without the field, with None for it, or after assigning to it does.",
  ["inputs", "programs"],
  "for every declaration, every field in it, and all values of it and the others",
  "Fields are tested alone with one or two values and no siblings; that the two ways of using each kind of field agree, and that what a field reports agrees with what it does, isn't tested.",
  [B, C, N, T], [("Field.to_bytes/to_stream/from_bytes/from_stream", B), ("Field.default/required/allow_null/is_computed_field", B)],
  ["Field.to_bytes", "Field.from_bytes", "Field.to_stream", "Field.from_stream", "field attributes"])

p("C30", "The stream and integer functions keep to exactly their own bytes",
  "The functions fields are built of, used directly on a stream at any position: reading an integer consumes exactly its number of bytes and gives their value, or raises UnexpectedEOFError with the size and position when there are fewer; writing writes exactly that many bytes, or nothing and raises OverflowError when the value doesn't fit; without an endianness they use the machine's. "
  "Peeking returns what is there without moving the stream, even when reading fails or is refused for being short. Iterating over bytes takes one byte at a time, no more than asked for, so that the stream is always just after the last byte taken. "
  "The variable-length encodings' functions, by name or from their table, encode and decode as the formats define, consuming exactly the encoding.",
  ["inputs", "histories"],
  "for every history of calls on one stream, every content, position, width, value and kind of stream",
  "The tests call each function once or twice on fresh in-memory streams; what a call leaves behind for the next one isn't tested.",
  [H, V], [("read_int/write_int/peek_bytes/iter_bytes", H), ("encode_integer_*/decode_integer_*", V)],
  ["helpers.read_int", "helpers.write_int", "helpers.peek_bytes", "helpers.iter_bytes", "varints.INTEGER_ENCODING_MAP"])

p("C31", "Operations interleaved in any way give what each gives by itself",
  "Any number of operations on structs of the same classes - dumps, loads, partial ones, sizing, converting, comparing, copying, reading single fields, declaring subclasses, also ones that fail - may run at the same time: in threads switched at any point, or one within another, begun from a stream, a callback, an iterator being dumped or a signal handler. "
  "Each gives exactly the bytes, values, positions or error it gives by itself, also when several of them read one shared struct that none of them changes.",
  ["schedules", "inputs"],
  "for every set of operations, every schedule of switches between them (at any line or instruction of the library), every declaration and values",
  "No test has two operations under way at once; state kept on a field, a struct's metadata or a module while an operation runs is correct whenever operations run one after another.",
  [B, C, S, V], [("Field.from_stream/to_stream", B), ("Array._do_load", C), ("Struct.from_stream/to_stream/to_dict", S), ("encode_integer_*", V)],
  ["Field.to_stream", "Field.from_stream", "Array._do_load", "Struct.to_dict", "Struct.from_stream"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in PROPS:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
