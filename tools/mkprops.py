#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in step by hand; run after editing)."""
import json, os
DE="src/json/de.rs"; SER="src/json/ser.rs"; DI="src/de/impls.rs"; SI="src/ser/impls.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("P01","from_str accepts exactly the JSON grammar",
  "Deserializing a text into a target that takes any JSON succeeds only if the text is one complete RFC 8259 JSON value with optional JSON whitespace around it, and it succeeds on every such text except those containing a number whose magnitude is too large for a finite double. Nothing else is accepted: no trailing commas, comments, leading zeros, bare control characters, unknown escapes, mismatched or missing brackets, or trailing data.",
  ["inputs"],"every input text up to 1 GiB, at every nesting depth",
  "The tests parse a handful of documents, all but two of them valid; the accepted language is infinite.",
  [DE],[("event loop and bracket/comma handling","src/json/de.rs fn from_str_impl"),("token recognisers","src/json/de.rs impl Deserializer: event, parse_str, parse_escape, parse_integer, parse_decimal, parse_exponent, parse_ident, parse_whitespace"),("ESCAPE table","src/json/de.rs static ESCAPE")],
  ["Ok/Err result of json::from_str"])
p("P02","String contents and keys are decoded exactly",
  "Every JSON string, as value or as object key, is delivered exactly once with precisely the characters it denotes: unescaped characters unchanged, the eight short escapes and \\uXXXX (either hex case) as the named character, surrogate pairs combined, and lone or misordered surrogates rejected.",
  ["inputs"],"every string literal, every mix and order of escapes and raw text, every code point",
  "No test contains a single escape sequence; surrogate arithmetic and copied-segment bookkeeping are never executed.",
  [DE],[("segment copy and scratch buffer","src/json/de.rs fn parse_str"),("escape decoding","src/json/de.rs fn parse_escape, decode_hex_escape")],
  ["argument of the string callback, argument of the key callback"])
p("P03","Every string handed to user code is valid UTF-8",
  "Parsing never hands a deserialization callback a string slice whose bytes are not valid UTF-8, whatever the input text and however escapes and multi-byte characters are mixed.",
  ["inputs"],"every input text",
  "The validity check is skipped with an unsafe conversion, so a violation is undefined behaviour rather than a test failure, and tests contain no escapes next to multi-byte text.",
  [DE],[("unchecked conversion justified by slicing only at ASCII delimiters and pushing only encoded characters","src/json/de.rs fn parse_str / result, parse_escape")])
p("P04","Integer literals are delivered exactly or as floats",
  "A number literal without fraction or exponent is delivered as an integer with exactly the written value whenever it lies in -2^63 ..= 2^64-1 (non-negative literals as unsigned, negative ones as signed), and otherwise as a floating point number. No literal is ever delivered with wrapped, truncated or sign-flipped integer value, and any literal with a fraction or exponent is delivered as floating point.",
  ["inputs"],"every number literal, any number of digits",
  "Tests use integers of one digit; the overflow guards only matter at 2^63 and 2^64.",
  [DE],[("digit accumulation with overflow guard","src/json/de.rs macro overflow!, fn parse_integer"),("sign handling","src/json/de.rs fn parse_number")])
p("P05","Float literals give finite values with right sign and scale",
  "A number delivered as floating point is always finite and carries the sign of the literal, and it is computed from at least the literal's first nineteen significant digits with a decimal exponent that accounts for every digit written before and after the point and for the explicit exponent. Literals too large for a finite double are rejected rather than delivered as infinity.",
  ["inputs"],"every number literal with fraction, exponent or too many digits; texts up to 1 GiB",
  "No test parses a fraction or an exponent.",
  [DE],[("decimal exponent bookkeeping","src/json/de.rs fn parse_long_integer, parse_decimal, parse_exponent, parse_exponent_overflow"),("scaling and infinity rejection","src/json/de.rs fn f64_from_parts, static POW10")])
p("P06","Parsing always terminates",
  "Deserialization of any text finishes: every repetition in the parser either consumes input, closes a nesting level, or makes bounded arithmetic progress, so no input can make it loop forever.",
  ["inputs"],"every input text, including truncated ones ending inside any token",
  "A hang needs an input that stops at the one byte a loop fails to consume; tests use complete documents.",
  [DE],[("every loop advances pos, pops the stack, or moves the exponent toward range","src/json/de.rs")])
p("P07","Parsing never panics or reads out of bounds",
  "Deserializing arbitrary text never panics, never overflows an arithmetic operation and never indexes outside the text or its lookup tables; malformed text always yields the error value.",
  ["inputs"],"every input text up to 1 GiB, truncated at any byte",
  "Tests feed two malformed texts; index and overflow checks depend on where the text ends.",
  [DE],[("bounds-checked peek/next and overflow guards","src/json/de.rs impl Deserializer"),("lookup tables","src/json/de.rs ESCAPE, POW10")])
p("P08","Callbacks follow the document exactly and errors stop parsing",
  "For every accepted text the callbacks made on the target mirror the document: each value is delivered once, to the place handed out for it, in document order, each key immediately precedes its value, and each array or object is closed exactly once after its last element. If any callback returns an error, parsing makes no further callback and returns an error.",
  ["inputs","histories"],"every input text and every sequence of callback results (success, error)",
  "Tests use well-behaved targets with few shapes; wrong routing or a swallowed error needs particular nesting or a failing user callback.",
  [DE,"src/de/mod.rs"],[("visitor/layer stack","src/json/de.rs fn from_str_impl"),("final result","src/json/de.rs fn from_str")])
p("P09","Nested builders are dropped before what they borrow from",
  "While parsing, a builder or place obtained from an enclosing builder is never used or dropped after that enclosing builder has been closed, dropped or freed, on any exit: success, syntax error, callback error or callback panic at any nesting depth.",
  ["inputs","fault_sequences"],"every input, every depth, and every point at which a callback errors or panics",
  "Violations are use-after-free on error paths of nested documents; tests exercise no failing nested document.",
  [DE,"src/ptr.rs"],[("reverse-order drop of layers","src/json/de.rs impl Drop for Deserializer"),("stack push/pop order","src/json/de.rs fn from_str_impl"),("single-owner heap cell","src/ptr.rs NonuniqueBox")])
p("P10","Serialization and deserialization use bounded stack",
  "The call stack used by from_str and to_string does not grow with the size or nesting depth of the data: no library function on these paths can re-enter itself.",
  ["inputs","programs"],"every nesting depth, every library-provided target and source type, every derived type",
  "One test nests one shape (objects in arrays) 100000 deep; recursion through any other type or path is untested.",
  ["src/json/de.rs","src/json/ser.rs","src/de/impls.rs","src/ser/impls.rs"],[("heap-allocated stacks instead of recursion","src/json/de.rs fn from_str_impl; src/json/ser.rs fn to_string_impl")])
p("P11","Dropping a JSON tree uses bounded stack",
  "Dropping a JSON value, array or object, including one partly consumed by iteration, uses a bounded amount of call stack however deeply it is nested, and releases every node.",
  ["inputs","histories"],"every tree shape and depth",
  "The tests drop one alternating shape; a recursive path for another mix of containers overflows the stack only at large depth.",
  ["src/json/drop.rs","src/json/array.rs","src/json/object.rs"],[("worklist drop","src/json/drop.rs fn safely"),("Drop impls","src/json/array.rs, src/json/object.rs")])
p("P12","Serialized output is always structurally well-formed JSON",
  "For any serializable source, including hand-written ones with any nesting, the output is the JSON rendering of exactly the fragments the source produced: brackets balanced and matching, commas exactly between elements, a key and colon before every map value, nothing omitted, duplicated or reordered.",
  ["inputs","programs"],"every finite fragment stream, any depth, empty containers in any position",
  "Three fixed outputs are compared; first/next-element branches for empty and nested containers are separate code paths.",
  [SER],[("serializer loop and stack","src/json/ser.rs fn to_string_impl")],["return value of json::to_string"])
p("P13","Serialized strings escape exactly what JSON requires",
  "Every string value and map key is emitted as a quoted JSON string that denotes exactly the original text: quote, backslash and every control character below 0x20 are escaped with an escape denoting that character, and all other text is copied unchanged, each character once and in order.",
  ["inputs"],"every string, every position and adjacency of characters needing escapes",
  "No test serializes a character that needs escaping.",
  [SER],[("escape loop","src/json/ser.rs fn escape_str"),("escape table","src/json/ser.rs static ESCAPE, HEX_DIGITS")])
p("P14","Scalars serialize to their exact JSON literal",
  "Integers of every supported width serialize with exactly their value, booleans and unit/None as true, false and null, finite floats as themselves and NaN or infinities as null, for library types and JSON numbers alike.",
  ["inputs"],"every value of every primitive type",
  "Tests serialize five floats and no integers; a lossy cast only shows at range ends.",
  [SER,SI,"src/json/number.rs"],[("fragment selection with widening casts only","src/ser/impls.rs macros signed!/unsigned!/float!"),("rendering","src/json/ser.rs fn to_string_impl")])
p("P15","Serialization never fails or panics",
  "Serializing any value never panics: no reachable assertion, unreachable marker, slice or index operation can fail for any string or fragment stream.",
  ["inputs"],"every string and every fragment stream",
  "Slicing at escape boundaries panics only for particular multi-byte placements, and table gaps only for particular bytes; tests have neither.",
  [SER],[("escape table values all handled","src/json/ser.rs fn escape_str"),("slice points lie on character boundaries","src/json/ser.rs fn escape_str")])
p("P16","Serialization never uses a stream after it is gone",
  "A value or key obtained from a sequence or map stream is never used after that stream has been advanced, dropped or freed, and streams are released innermost first on every exit, including panics in user streams.",
  ["inputs","fault_sequences"],"every nesting and every point at which a user stream panics",
  "Borrow checking is bypassed by casting lifetimes away; a violation is undefined behaviour, not a failing test.",
  [SER,"src/careful.rs"],[("lifetime extension invariants","src/json/ser.rs fn to_string_impl"),("reverse-order drop","src/json/ser.rs impl Drop for Serializer")])
p("P17","Integer targets accept exactly their range, with exact value",
  "A fixed-width integer target accepts a delivered integer exactly when it fits the target's range and then stores exactly that value; anything outside the range, of the wrong sign, or not an integer is an error, never a wrapped or clamped value.",
  ["inputs"],"every delivered integer and every target width",
  "Only u32 targets with values 1 and 2 are tested.",
  [DI],[("range checks before casts","src/de/impls.rs macros signed!, unsigned!")])
p("P18","Scalar targets accept only their own kind of JSON value",
  "Each library-provided scalar target accepts exactly the JSON kinds it stands for (unit: null; bool: booleans; string: strings; integers: integers; floats and JSON numbers: any number) storing the delivered value, and rejects every other kind without storing anything.",
  ["inputs","programs"],"every scalar target type against every JSON kind",
  "Tests contain one rejected kind; the table of types by kinds has over a hundred entries.",
  [DI,"src/json/number.rs","src/de/mod.rs"],[("overridden callbacks per type","src/de/impls.rs"),("rejecting defaults","src/de/mod.rs trait Visitor")])
p("P19","Option, Box, reference and Cow are transparent",
  "Deserializing into Box<T> or Option<T> behaves for every JSON kind exactly like deserializing into T (for Option, null instead means None and anything else must be a T), and serializing &T, Box<T>, Cow<T> or Some(T) yields exactly what T yields.",
  ["inputs","programs"],"every inner type and every JSON kind",
  "Only Box of two types and Option of string types are tested; each JSON kind is a separate forwarding path.",
  [DI,SI],[("forwarding callbacks","src/de/impls.rs impl Deserialize for Box<T>, Option<T>"),("forwarding begin","src/ser/impls.rs")])
p("P20","Sequence targets keep every element once and in order",
  "Deserializing a JSON array into a vector, JSON array, fixed-size array or pair stores every element exactly once in document order, and fixed-size arrays and pairs fail unless the element count matches exactly.",
  ["inputs"],"every number of elements",
  "Tests use three-element string arrays only.",
  [DI,"src/json/array.rs","src/json/value.rs"],[("shift-on-next-element builders","src/de/impls.rs VecBuilder, ArrayBuilder, TupleBuilder; src/json/array.rs")])
p("P21","Fixed-size arrays never expose, leak or double-drop elements",
  "While deserializing a fixed-size array, memory of an element not yet written is never read or dropped, and every element written is dropped exactly once or moved exactly once into the result, whether deserialization succeeds, fails or unwinds at any element.",
  ["inputs","fault_sequences"],"every array length and every failure point",
  "The failure tests use strings without observing drops; wrong bookkeeping is undefined behaviour.",
  [DI],[("len-tracked MaybeUninit storage","src/de/impls.rs ArrayBuilder")])
p("P22","Map targets store each key with its own value",
  "Deserializing a JSON object into a map stores, for every key in the document, the last value given for that key and nothing else, and fails if a key cannot be parsed as the key type.",
  ["inputs"],"every number and order of entries, including duplicates and unparsable keys",
  "No test deserializes a map other than through single-entry JSON objects.",
  [DI,"src/json/object.rs","src/json/value.rs"],[("pending key and value moved on next key","src/de/impls.rs MapBuilder; src/json/object.rs ObjectBuilder; src/json/value.rs ObjectBuilder")])
p("P23","The untyped JSON value represents every document faithfully",
  "Deserializing into the untyped JSON value records each JSON kind as the corresponding variant with the delivered payload, and serializing it produces the fragment of the same kind and payload, so the two directions are inverse on every variant; stand-alone arrays, objects and numbers behave as they do inside a value.",
  ["inputs"],"every JSON value",
  "One debug rendering and one nested shape are compared; several number and container variants are never serialized.",
  ["src/json/value.rs","src/json/array.rs","src/json/object.rs","src/json/number.rs"],[("variant-per-callback mapping","src/json/value.rs impl Deserialize for Value"),("fragment-per-variant mapping","src/json/value.rs impl Serialize for Value")])
p("P24","Unknown data is skipped without side effects",
  "The library's ignoring target accepts every JSON value of any shape and depth and stores nothing, so unknown struct fields never cause an error and never affect known ones.",
  ["inputs"],"every JSON value in ignored position",
  "One test skips a single integer.",
  ["src/ignore.rs"],[("accept-all callbacks","src/ignore.rs impl Visitor/Seq/Map for Ignore")])
p("P25","Derived struct deserialization routes keys to their fields",
  "For every derived struct whose (renamed) field names are distinct, a document entry goes to the field with that (possibly renamed) name and no other, unknown keys are ignored, a repeated key takes the last value, and success requires every field to have received a value except optional ones, which default to None.",
  ["programs","inputs"],"every named-field struct the derive accepts (any field count, names, renames, generics) and every document",
  "Two structs are tested; the generated code depends on the input type.",
  ["derive/src/de.rs","derive/src/attr.rs","derive/src/bound.rs"],[("generated key match and finish","derive/src/de.rs fn derive_struct")])
p("P26","Derived struct serialization emits every field once in order",
  "For every derived struct whose (renamed) field names are distinct, serialization emits each field exactly once, in declaration order, under its (possibly renamed) name, which is the same name deserialization looks for.",
  ["programs"],"every named-field struct the derive accepts",
  "Two structs are tested.",
  ["derive/src/ser.rs","derive/src/attr.rs"],[("generated state-indexed next","derive/src/ser.rs fn derive_struct")])
p("P27","Derived enums map variants and names one to one",
  "For every derived C-style enum whose (renamed) variant names are distinct, each variant serializes to its (possibly renamed) name and that name deserializes back to the same variant; any other string or JSON kind is an error.",
  ["programs","inputs"],"every unit-variant enum the derive accepts and every input string",
  "One three-variant enum is tested.",
  ["derive/src/ser.rs","derive/src/de.rs","derive/src/attr.rs"],[("generated matches","derive/src/ser.rs, derive/src/de.rs fn derive_enum")])
p("P28","Container serialization streams each element once in order",
  "Serializing a slice, vector, array, pair, map or JSON container produces one fragment stream with every element or entry exactly once, in iteration order, each map key rendered by its string conversion with its own value.",
  ["inputs"],"every container length and content",
  "Tests serialize three-element arrays and two-field structs.",
  [SI,"src/json/object.rs","src/json/array.rs"],[("stream adaptors","src/ser/impls.rs TupleStream, SliceStream, HashMapStream, BTreeMapStream; src/json/object.rs ObjectIter")])
p("P29","Owning wrappers free or move their contents exactly once",
  "Converting a JSON array or object into an iterator, and creating, using and dropping the library's internal heap cells and boxed builders, moves or frees every owned value exactly once, with anything borrowing from a cell dropped before the cell, on normal and unwinding exits.",
  ["inputs","fault_sequences"],"every container and every failure point",
  "Double frees and leaks are not observed by any test.",
  ["src/ptr.rs","src/json/array.rs","src/json/object.rs",DI],[("ManuallyDrop + read","src/json/array.rs fn take, src/json/object.rs fn take"),("NonuniqueBox drop","src/ptr.rs"),("builder-before-value drop order","src/de/impls.rs BoxSeq, BoxMap")])
p("P30","Output places reinterpret memory only at identical layout",
  "Every reinterpretation of an output slot as a visitor object, in the library, in the exported place macro and in derived code, is between types guaranteed to have the same layout, for every type parameter and every layout the compiler may choose.",
  ["programs","configurations"],"every instantiation and every compiler layout choice",
  "Without the layout guarantee the code usually works by luck; only randomized layouts would show it.",
  ["src/place.rs","derive/src/de.rs"],[("single-field repr(C) places","src/place.rs macro make_place; derive/src/de.rs __Visitor")])
p("P31","Concurrent use needs no synchronisation",
  "Any number of threads may serialize and deserialize at the same time without data races or interference: the library keeps no mutable shared state, and JSON values can be sent to and shared between threads.",
  ["schedules"],"every interleaving of any number of threads",
  "All tests are single threaded within one call.",
  ["src/ignore.rs","src/json/value.rs"],[("only immutable or zero-sized statics","src/ignore.rs static IGNORE; src/json/de.rs, src/json/ser.rs tables")])
p("P32","Without the std feature the crate needs only core and alloc",
  "With default features disabled the library needs nothing from the standard library beyond core and alloc, and still offers every function and impl that does not itself involve a std-only type, identical to the default configuration.",
  ["configurations"],"both feature configurations",
  "The tests run on a host where std is always available, so an accidental dependency still links and passes.",
  ["src/lib.rs",DI,SI,"src/error.rs"],[("no_std attribute and cfg(feature = std)","src/lib.rs")])
p("P33","Safe callers cannot break memory safety through lifetimes",
  "Programs without unsafe code cannot obtain from the public API a fragment, stream, place or builder that outlives the data it borrows: every such program is rejected by the compiler.",
  ["programs"],"every safe client program",
  "Tests only contain programs that compile and behave.",
  ["src/ser/mod.rs","src/de/mod.rs","src/place.rs","src/lib.rs"],[("lifetimes in public signatures","src/ser/mod.rs, src/de/mod.rs, src/place.rs")])
p("P34","The derives refuse every unsupported shape",
  "Deriving either trait on a tuple struct, unit struct, union, enum with data, generic enum, or one with an unknown or duplicate serde attribute on a field or variant fails to compile; it never silently produces an implementation.",
  ["programs"],"every type definition outside the supported shapes",
  "The compile-fail tests try one program per shape.",
  ["derive/src/de.rs","derive/src/ser.rs","derive/src/attr.rs"],[("shape dispatch","derive/src/*.rs fn try_expand, derive_enum"),("attribute parsing","derive/src/attr.rs fn attr_rename")])
p("P35","Finite floats survive a round trip up to scaling error",
  "Serializing any finite float and deserializing the text yields a float equal to the original up to the rounding error of one decimal scaling step.",
  ["inputs"],"every finite double",
  "Needs all 2^64 bit patterns.",
  [DE,SER],[("decimal scaling","src/json/de.rs fn f64_from_parts")])
p("P36","Work and memory are linear in the size of the data",
  "Deserialization and serialization take time and memory proportional to the size of the text and the data.",
  ["inputs"],"every input size",
  "Small inputs only.",
  [DE,SER],[("single pass","src/json/de.rs, src/json/ser.rs")])
p("P37","JSON trees copy, collect and iterate like the collections they are",
  "Cloning a Value, Array, Object or Number (clone and clone_from) gives an equal copy in memory of its own and leaves the original as it was; collecting an iterator into an Array or Object holds exactly its items, in order or the last one per key; new and default values are empty (null for Value); dereferencing and borrowed iteration reach exactly the contents, in order; displaying a finite Number writes the digits serialization writes, and reports failures of the output.",
  ["inputs","histories"],"every tree, every iterator (any number of items, keys repeated or not, panicking anywhere) and every output that may fail",
  "The tests clone one object and never collect, extend over existing contents or display a number.",
  ["src/json/value.rs","src/json/array.rs","src/json/object.rs","src/json/number.rs"],[("Clone, Default, Deref, FromIterator, IntoIterator","src/json/array.rs, src/json/object.rs"),("Clone, Default","src/json/value.rs"),("Display","src/json/number.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,d["title"]
        f.write(json.dumps(d)+"\n")
print(len(P))
