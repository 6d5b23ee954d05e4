#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to review and edit)."""
import json, os
PY = "compiler/extensions/python/runtime/src/zserio/"
JV = "compiler/extensions/java/runtime/src/zserio/runtime/"
CP = "compiler/extensions/cpp/runtime/src/zserio/"
CO = "compiler/core/src/zserio/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Python: fixed-width integers occupy exactly their bits, big endian",
 "In the Python runtime, writing an unsigned or signed integer of any width from 1 to 64 bits at any bit position appends exactly that many bits, most significant bit first and two's complement for signed values, and leaves every earlier bit as it was; reading the same width at the same position returns the value. A value that does not fit the width, or a width outside 1..64 in the checking entry points, is rejected with the runtime's exception and nothing is written. The unused low bits of the last byte are always zero.",
 ["inputs", "histories"], "all widths 1..64, all values (in and out of range), all earlier stream contents and lengths, all bit positions",
 "The tests write a few values at a few positions; 64 widths x 8 bit offsets x 2^64 values x arbitrary prior content cannot be sampled meaningfully.",
 [PY+"bitwriter.py", PY+"bitreader.py"],
 [("splitting a value over partially filled bytes", PY+"bitwriter.py: BitStreamWriter._write_bits"), ("range checks", PY+"bitwriter.py: write_bits_unchecked, write_signed_bits_unchecked"), ("extraction by slice, shift and mask", PY+"bitreader.py: read_bits_unchecked, read_signed_bits_unchecked")],
 ["byte_array and bitposition of the writer", "returned value and bitposition of the reader"])

prop("P02", "Python: variable-length integers follow the wire format and round-trip",
 "For every zserio variable-length integer type (varint16/32/64, varint, varuint16/32/64, varuint, varsize), the Python runtime writes each value in the type's range in the documented byte layout using the shortest form, the size function predicts exactly the number of bits written, and reading the bytes back returns the value (the minimum 64-bit integer included, stored as negative zero in varint). A value outside the type's range is rejected by both the size function and the writer without writing anything, and an encoded varsize beyond its maximum is rejected by the reader.",
 ["inputs"], "all nine types, all integers, all bit positions",
 "The tests use a table of values around each length boundary; they do not cover all values, positions or the reader on arbitrary bytes.",
 [PY+"bitwriter.py", PY+"bitreader.py", PY+"bitsizeof.py"],
 [("continuation and sign bits", PY+"bitwriter.py: _write_varnum"), ("decoding chains", PY+"bitreader.py: read_var*"), ("length tables", PY+"bitsizeof.py: VAR*_MAX_VALUES, _bitsizeof_varnum")])

prop("P03", "Python: half, single and double precision floats convert correctly",
 "Converting any 16-bit half-precision pattern to a float gives exactly the IEEE 754 value it denotes, and converting that float back gives the same pattern (NaN stays NaN). Converting any single-precision value to half precision gives the nearest half-precision value (ties away from zero) when its magnitude is at least the smallest half-precision subnormal, zero of the same sign below that, and infinity of the same sign on overflow; it never turns a number into NaN or a NaN into a number. Single and double precision conversions keep every bit pattern that the host float can carry.",
 ["inputs"], "all 2^16 half patterns and all 2^32 single-precision patterns",
 "The tests check a dozen special patterns; rounding, subnormals, overflow and NaN payloads span 2^32 inputs.",
 [PY+"float.py"], [("exponent re-biasing, subnormal normalisation and rounding", PY+"float.py: uint16_to_float, float_to_uint16")])

prop("P04", "Python: bytes, strings and bit buffers are stored exactly at any position",
 "Writing a byte sequence, a string or a bit buffer of any length at any bit position appends its varsize length followed by exactly its content bits (UTF-8 for strings, most significant bits first for bit buffers), the size function predicts exactly the number of bits appended, and reading it back at the same position returns equal content and leaves the position right after it. The result does not depend on whether the position is byte aligned. A length prefix pointing beyond the end of the stream is rejected with the runtime's exception. A string that has no UTF-8 form is rejected before anything is written, and stored bytes that are not UTF-8 are rejected with Python's decoding error.",
 ["inputs", "histories"], "all lengths, contents, bit positions and truncation points",
 "Tests use one or two short values at aligned and one unaligned position; length is unbounded.",
 [PY+"bitwriter.py", PY+"bitreader.py", PY+"bitsizeof.py"],
 [("aligned fast path and unaligned byte loop", PY+"bitwriter.py: write_bytes, write_string, write_bitbuffer"), ("aligned fast path and unaligned byte loop", PY+"bitreader.py: read_bytes, read_string, read_bitbuffer"), ("size prediction", PY+"bitsizeof.py: bitsizeof_bytes, bitsizeof_string, bitsizeof_bitbuffer")])

prop("P05", "Python: the stream reader never reads or moves beyond its data",
 "For any bytes and any declared non-negative bit size, every read operation of the Python stream reader either consumes exactly the bits it returns, all of them inside the stream, or raises the runtime's exception (for string content that is not UTF-8, Python's decoding error); the position is always between 0 and the stream size and is unchanged by a rejected fixed-width read or rejected reposition. A stream whose declared bit size exceeds its data cannot be constructed.",
 ["inputs", "histories"], "all stream contents, bit sizes, positions and read operations",
 "Tests hit the end of stream for a few operations with one buffer each.",
 [PY+"bitreader.py"], [("end-of-stream check before every access", PY+"bitreader.py: read_bits_unchecked, bitposition setter, read_bytes, read_string, read_bitbuffer, alignto, __init__")])

prop("P06", "Python: alignment and bit/byte size helpers are exact",
 "Aligning a bit position gives the smallest multiple of the alignment that is not below the position; the writer's align writes only zero bits up to that point and the reader's align skips exactly to it (or rejects when it lies beyond the stream). Conversions between bits and bytes are exact, and a bit count that is not whole bytes is rounded up or rejected as documented.",
 ["inputs"], "all non-negative positions and sizes, all positive alignments",
 "Tests check a handful of pairs.",
 [PY+"bitposition.py", PY+"bitreader.py", PY+"bitwriter.py"], [("alignment arithmetic", PY+"bitposition.py"), ("writer and reader alignment", PY+"bitwriter.py: alignto; "+PY+"bitreader.py: alignto")])

prop("P07", "Python: bit buffers compare and hash by their used bits only",
 "Two bit buffers are equal exactly when they have the same bit size and the same bits within that size: bits beyond the declared size never matter. Equal bit buffers have equal hash codes, and the hash code is the documented polynomial over the used bytes with unused bits of the last byte cleared.",
 ["inputs"], "all buffers and all bit sizes",
 "Tests compare a few 11- to 15-bit buffers.",
 [PY+"bitbuffer.py", PY+"hashcode.py"], [("masked last byte", PY+"bitbuffer.py: _masked_last_byte, __eq__, __hash__")])

prop("P08", "Python: hash codes follow the documented 32-bit polynomial for all values",
 "Every hash-code function of the Python runtime returns a value within 32 unsigned bits equal to the documented polynomial (prime 37 over the running seed, 64-bit values folded, floats by their IEEE bits, sequences element by element in order, array elements of the integer types modulo 2^32, absent and empty objects as zero). Hence equal inputs always give equal hash codes, whatever their length.",
 ["inputs"], "all seeds, values, and sequences of any length",
 "Tests compute the hash of one or two values per type.",
 [PY+"hashcode.py"], [("polynomial accumulation", PY+"hashcode.py: calc_hashcode_*")])

prop("P09", "Python: arrays - predicted size, offsets and written bits always agree",
 "For an array of any element type and any number of elements, starting at any bit position, in every layout (fixed length, auto length, implicit, with or without indexed offsets): the predicted bit size, the end position computed while initialising offsets, and the number of bits written are the same; each element's recorded offset is the byte-aligned position where it is written; and reading the written bits returns an equal array and ends at the same position.",
 ["inputs"], "all element types and sizes, all array lengths, all layouts and start positions",
 "Tests use arrays of two to five elements with fixed positions; the agreement must hold for every length and element size sequence.",
 [PY+"array.py", PY+"bitposition.py"], [("four parallel traversals", PY+"array.py: Array.bitsizeof, initialize_offsets, write, read"), ("element descriptions", PY+"array.py: *ArrayTraits")])

prop("P10", "Python: delta packing is lossless, size-exact and never larger than unpacked",
 "For any sequence of integers of a packable type, a packed array records whether packing is used, the maximum delta width and the first element as documented, packing is chosen only when it makes the encoding strictly smaller and every delta fits, the predicted size equals the bits written, and reading returns the original sequence. This holds for any length and any mix of deltas, including deltas too wide to pack and sequences of equal elements.",
 ["inputs"], "all integer sequences within the element type's range, all lengths",
 "Tests pack a few arrays of up to five elements; the decision depends on all elements.",
 [PY+"array.py"], [("context collecting the maximum delta width", PY+"array.py: DeltaContext.init, _finish_init"), ("descriptor and delta coding", PY+"array.py: DeltaContext.bitsizeof, read, write"), ("packed traversals", PY+"array.py: Array.*_packed")])

prop("P11", "Python: bit-field bounds, limits and built-in operators are exact",
 "The lower and upper bounds reported for signed and unsigned bit fields of every length from 1 to 64 are exactly the representable range, other lengths are rejected, and the published minimum and maximum of each zserio integer type are exactly the values its encoder accepts. The built-in numbits operator returns the number of bits needed to tell the given number of values apart (0 for none, 1 for one), isset is true exactly when all required bits are set, and string length counts UTF-8 bytes.",
 ["inputs"], "all lengths, all non-negative counts, all masks",
 "Tests check a few lengths and values.",
 [PY+"bitfield.py", PY+"limits.py", PY+"builtin.py"], [("bounds", PY+"bitfield.py"), ("constants", PY+"limits.py"), ("operators", PY+"builtin.py")])

prop("P12", "Python: JSON values survive encode/decode and bad text is rejected cleanly",
 "Decoding the JSON text that the Python runtime's encoder produces for any string or integer returns the same value and consumes exactly that text, wherever it stands in the input (an integer: followed by the end of the text or a character that cannot continue a number). On any text at all, decoding a value either succeeds or reports failure without reading outside the text, consuming at least one and at most the remaining number of characters.",
 ["inputs"], "all strings, all integers, all texts and start positions",
 "Tests decode a list of sample texts.",
 [PY+"json.py"], [("value decoder", PY+"json.py: JsonDecoder"), ("encoder", PY+"json.py: JsonEncoder")])

prop("P13", "Python: enum and bitmask values survive their JSON text form",
 "For any bitmask type (with any set of named values) and any value of it, the text the JSON writer produces is turned back by the JSON reader into the same value, whether it is an exact combination of names, a partial match or no match; for enums the name of an item is turned back into the same item. Enum text that is not an item's name is rejected with the runtime's exception. Bitmask text starting with a letter or underscore gives the combination of the '|'-separated names and is rejected when a part is no name; text starting with a digit gives the number its leading digits denote, or is rejected when the type cannot hold it; any other text is rejected. No text makes the reader fail in any other way.",
 ["inputs", "programs"], "all bitmask definitions, all values, all texts",
 "Tests use one bitmask with three names and a few texts.",
 [PY+"json.py"], [("textual form", PY+"json.py: JsonWriter._write_stringified_enum, _write_stringified_bitmask"), ("parsing", PY+"json.py: JsonReader._CreatorAdapter._enum_from_string, _bitmask_from_string, _parse_bitmask_*")])

prop("P14", "Python: walking an object tree is properly nested and honours filters",
 "Walking any zserio object visits its fields in schema order with every begin notification matched by its end notification, and each field or element is announced to the observer exactly when the filter's 'before' answer allows it, while the filter's 'after' is always consulted and stops the siblings when it says so. A depth filter lets through exactly the levels up to its limit and an array-length filter exactly the elements below its limit; combined filters let through exactly what all of them let through.",
 ["inputs", "programs"], "all object trees, all array lengths, all filter answers",
 "Tests walk one object tree with a few filters.",
 [PY+"walker.py"], [("walk recursion", PY+"walker.py: Walker"), ("filters", PY+"walker.py: DepthWalkFilter, ArrayLengthWalkFilter, AndWalkFilter")])

prop("P15", "Python: the tree creator accepts exactly well-formed build sequences",
 "Whatever sequence of build calls is made on a tree creator, each call either is allowed by the documented grammar (root, fields, arrays, compounds, elements properly nested) and has exactly its documented effect on the object under construction, or raises the runtime's exception and leaves the construction state unchanged. Values are only stored in fields of a matching type.",
 ["histories"], "all call sequences, all type descriptions",
 "Tests run a few legal sequences and a few illegal calls.",
 [PY+"creator.py"], [("state machine with two stacks", PY+"creator.py: ZserioTreeCreator")])

prop("P16", "Python: serialisation helpers keep every bit and the exact bit size",
 "Serialising any object to bits, bytes or a file stores exactly the bits the object writes, with the exact bit size for bit buffers, after initialising offsets; deserialising that output hands the reader the same bits and size. None of the helpers loses or adds trailing bits beyond padding to a whole byte.",
 ["inputs"], "all objects and all bit sizes",
 "Tests use one small object.",
 [PY+"serialization.py", PY+"bitwriter.py", PY+"bitreader.py"], [("helpers", PY+"serialization.py")])

prop("G01", "Generated Python: size, offsets, writing and reading agree",
 "For the Python code the compiler generates for structures, choices, unions, enums and bitmasks (with optional, aligned, offset, constrained, parameterized, array and packed fields), the predicted size of an object equals the bits it writes at the same position, the end position reported when offsets are initialised equals it too, and reading what was written yields an equal object. Two objects are equal exactly when the fields in use are equal, and equal objects have equal hash codes. An object whose constraint, offset, declared array length or parameters of a field do not hold is refused instead of written, and a stream written before the last extended fields were added is read with these fields absent. Fields are stored in schema order with no bits other than those the schema calls for.",
 ["inputs", "programs"], "all field values (and all schemas over the listed constructs; checked for a corpus of schemas)",
 "The repository's baseline tests exercise no generated Python code at all.",
 ["compiler/extensions/python/freemarker", "compiler/extensions/python/src/zserio/extension/python"], [("templates", "compiler/extensions/python/freemarker/*.ftl")])

prop("J01", "Java: fixed-width integers occupy exactly their bits, big endian",
 "In the Java runtime, writing an unsigned or signed integer of any supported width at any bit position stores exactly that many bits, most significant first, leaving all other bits as they were, and reading the same width at the same position returns the value. Values or widths out of range are rejected with an exception and nothing is written; reading beyond the end of the stream is rejected with an exception and never accesses bytes outside the buffer.",
 ["inputs", "histories"], "all widths, values, prior contents and bit positions",
 "The tests write a few values at a few positions.",
 [JV+"io/ByteArrayBitStreamWriter.java", JV+"io/ByteArrayBitStreamReader.java", JV+"io/ByteArrayBitStreamBase.java"], [("bit writer", JV+"io/ByteArrayBitStreamWriter.java"), ("bit reader", JV+"io/ByteArrayBitStreamReader.java")])

prop("J02", "Java: variable-length integers follow the wire format and round-trip",
 "For every zserio variable-length integer type the Java runtime writes each value in range in the documented byte layout using the shortest form, the size function predicts exactly the number of bits written, and reading returns the value; the bytes are identical to those the other language runtimes produce. Values out of range are rejected by size function and writer.",
 ["inputs"], "all nine types, all 64-bit values (varuint: all non-negative big integers)",
 "The tests use a table of boundary values.",
 [JV+"io/ByteArrayBitStreamWriter.java", JV+"io/ByteArrayBitStreamReader.java", JV+"BitSizeOfCalculator.java"], [("writer", JV+"io/ByteArrayBitStreamWriter.java: writeVar*"), ("reader", JV+"io/ByteArrayBitStreamReader.java: readVar*"), ("sizes", JV+"BitSizeOfCalculator.java")])

prop("J03", "Java: half-precision floats convert correctly",
 "In the Java runtime, converting any 16-bit half-precision pattern to a float gives exactly the IEEE 754 value it denotes and converting back restores the pattern (NaN stays NaN); converting any single-precision value to half precision rounds to nearest (ties away from zero), flushes magnitudes below the smallest subnormal to zero, and overflows to infinity, never producing NaN from a number or a number from NaN.",
 ["inputs"], "all 2^16 half and 2^32 single patterns",
 "The tests check a dozen patterns.",
 [JV+"FloatUtil.java"], [("conversion", JV+"FloatUtil.java")])

prop("J04", "Java: delta packing is lossless, size-exact and never larger than unpacked",
 "For any sequence of integers of a packable type the Java runtime's packed encoding uses packing only when strictly smaller and every delta fits, its predicted size equals the bits written, the descriptor is as documented, and reading returns the original sequence.",
 ["inputs"], "all element sequences and lengths",
 "Tests pack a few short arrays.",
 [JV+"array/DeltaContext.java"], [("packing context", JV+"array/DeltaContext.java")])

prop("J05", "Java: bounds, alignment, numBits and bit-buffer helpers are exact",
 "In the Java runtime the bounds of bit fields of every valid length are exactly the representable range and other lengths are rejected; aligning a position gives the smallest multiple not below it; the numBits operator agrees with the other runtimes for every count; bit buffers compare and hash by their used bits only, and a bit size that exceeds the given bytes is rejected.",
 ["inputs"], "all lengths, positions, alignments, counts and buffers",
 "Tests check a few values.",
 [JV+"BitFieldUtil.java", JV+"BitPositionUtil.java", JV+"BuiltInOperators.java", JV+"io/BitBuffer.java", JV+"HashCodeUtil.java"], [("helpers", JV+"BitFieldUtil.java, BitPositionUtil.java, BuiltInOperators.java, io/BitBuffer.java")])

prop("J06", "Java: hash codes follow the documented 32-bit polynomial for all values",
 "Every hash-code function of the Java runtime returns the documented 32-bit polynomial (prime 37 over the running seed, modulo 2^32; booleans as 0 or 1, integers up to 32 bits as they are, 64-bit and big integers folded by xor of their halves, floats by their IEEE bits with one NaN, strings by their UTF-16 code units, enum items by the hash of their value, other objects by their own hash code, absent values as zero, sequences element by element in order); the hash code of an array is that of its elements with the seed 23. Hence equal inputs always give equal hash codes, whatever their length.",
 ["inputs"], "all values, seeds, element types and lengths",
 "Tests hash a handful of values per type.",
 [JV+"HashCodeUtil.java", JV+"array/RawArray.java", JV+"array/Array.java"], [("hash functions", JV+"HashCodeUtil.java: calcHashCode"), ("arrays", JV+"array/RawArray.java: hashCode")])

prop("J07", "Java: bytes, strings and bit buffers are stored exactly at any position",
 "In the Java runtime, writing a byte sequence, a string or a bit buffer of any length at any bit position appends its varsize length followed by exactly its content bits (UTF-8 for strings, most significant bits first for bit buffers); the size functions predict exactly the number of bits appended (as far as it fits into an int); reading it back at the same position returns equal content and leaves the position right after it. The result does not depend on whether the position is byte aligned. A length prefix pointing beyond the end of the stream is rejected with an IOException.",
 ["inputs", "histories"], "all lengths, contents, stream sizes, bit positions",
 "Tests write short values at a few offsets.",
 [JV+"io/ByteArrayBitStreamWriter.java", JV+"io/ByteArrayBitStreamReader.java", JV+"BitSizeOfCalculator.java"], [("writer", JV+"io/ByteArrayBitStreamWriter.java: writeBytes, writeString, writeBitBuffer"), ("reader", JV+"io/ByteArrayBitStreamReader.java: readBytes, readString, readBitBuffer"), ("sizes", JV+"BitSizeOfCalculator.java")])

prop("C01", "C++: fixed-width integers occupy exactly their bits, big endian",
 "In the C++ runtime, writing an unsigned or signed integer of any supported width at any bit position of a sufficiently large buffer stores exactly that many bits, most significant first, leaving all other bits as they were, and reading the same width at the same position returns the value. Values or widths out of range are rejected with an exception, and no operation ever accesses memory outside the buffer: reading or writing beyond the end is rejected.",
 ["inputs", "histories"], "all widths, values, prior contents, buffer sizes and bit positions",
 "The C++ runtime has no baseline tests here beyond the Python binding.",
 [CP+"BitStreamReader.cpp", CP+"BitStreamWriter.cpp"], [("bit reader", CP+"BitStreamReader.cpp"), ("bit writer", CP+"BitStreamWriter.cpp")])

prop("C02", "C++: variable-length integers follow the wire format and round-trip",
 "For every zserio variable-length integer type the C++ runtime writes each value in range in the documented byte layout using the shortest form, the size function predicts exactly the number of bits written, and reading returns the value; the bytes are identical to those the other language runtimes produce. Values out of range are rejected.",
 ["inputs"], "all nine types, all 64-bit values",
 "As C01.",
 [CP+"BitStreamReader.cpp", CP+"BitStreamWriter.cpp", CP+"BitSizeOfCalculator.cpp"], [("writer", CP+"BitStreamWriter.cpp: writeVar*"), ("reader", CP+"BitStreamReader.cpp: readVar*"), ("sizes", CP+"BitSizeOfCalculator.cpp")])

prop("C03", "C++: half-precision floats, bounds, alignment and numBits helpers are exact",
 "In the C++ runtime, half-precision conversion is exact from half to single precision and rounds to nearest (ties away from zero, flush below the smallest subnormal, overflow to infinity, NaN preserved) from single to half; bit-field bounds, alignment and the numBits operator give exactly the documented results for every argument.",
 ["inputs"], "all bit patterns and arguments",
 "As C01.",
 [CP+"FloatUtil.cpp", CP+"BitFieldUtil.cpp", CP+"BitPositionUtil.h", CP+"BuiltInOperators.cpp"], [("helpers", CP+"FloatUtil.cpp, BitFieldUtil.cpp, BitPositionUtil.h, BuiltInOperators.cpp")])

prop("K01", "Compiler: value ranges of integer expressions are sound",
 "Whenever the compiler derives a constant value or a lower and upper bound for an integer expression from those of its operands, the exact run-time value of the expression lies within the derived bounds (equal to it for constants) for every operand value within the operand bounds, for every arithmetic, bitwise, shift, numbits and conditional operator (division and remainder round towards zero; shift counts are 0 to 63; numbits is the number of bits needed to number that many things, 0 for 0).",
 ["inputs", "programs"], "all operator trees, all operand bounds and all operand values",
 "Tests evaluate a handful of concrete bounds per operator.",
 [CO+"ast/ExpressionIntegerValue.java", CO+"ast/Expression.java"], [("interval arithmetic", CO+"ast/ExpressionIntegerValue.java")])

prop("K02", "Compiler: identical input always produces identical output files",
 "Running the compiler twice on the same schema with the same options produces byte-identical generated files.",
 ["programs"], "all schemas and options", "Tests never compare two runs.",
 [CO+"tools/ZserioTool.java"], [("emitters", "compiler/extensions/*/src")])

prop("K03", "Compiler: every name in a schema resolves to the declaration scoping demands",
 "Each symbol reference in a schema resolves to the declaration required by zserio's scoping, import and template rules, or the compiler reports an error.",
 ["programs"], "all schemas", "Tests use a finite set of schemas.",
 [CO+"ast/ZserioAstSymbolResolver.java", CO+"ast/Scope.java"], [("scopes", CO+"ast/Scope.java")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
