import json
J="Code/Json4C4/C4Json.cpp"; H="Code/Json4C4/C4Json.h"; T="Code/Terathon/"
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","Parsing accepts exactly the texts of RFC 8259",
 "Parsing a null-terminated text succeeds if and only if the text up to its first null byte is a JSON text by the grammar of RFC 8259 (one value of any kind with optional whitespace around it, in UTF-8 without a byte order mark). The only departures are documented limits: the escape \\u0000 is refused, arrays and objects nested more than 1024 deep are refused, and encoded surrogate code points are tolerated. No other text is accepted, not even one of which a prefix is valid.",
 ["inputs"],"for every byte string given as a null-terminated text",
 "The five tests parse a few well-formed files and one or two malformed ones; acceptance is a statement about every text, and nearly all malformed texts are never tried.",
 [J,T+"TSText.cpp"],[("ParseAnyValue, ArrayValue::Parse, ObjectValue::Parse, StringValue::Parse",J),("ReadStringLiteral / ReadStringEscapeChar",J),("ComputeFloatLiteralLength / ReadDoubleLiteral",J),("Text::ValidateUnicodeChar",T+"TSText.cpp"),("ParseJsonRoot (end of text)",J)],
 ["StructuredData::Parse(const Array<char>&) status"])
p("C02","A parsed document has exactly the values of the text",
 "After a successful parse the document tree has the same shape as the text: the same kinds of values, array elements in order, object members under their names, every boolean, null, string (escapes decoded, surrogate pairs combined, everything else byte for byte in UTF-8) and number (the nearest double). When a name is repeated in an object, the first value is the one that is kept. Nothing is added, dropped, reordered or taken from another part of the text.",
 ["inputs"],"for every valid JSON text",
 "The tests look at a handful of members of a handful of files; the claim is about every value of every text, including every escape, every code point, every name and every element position.",
 [J,H,T+"TSString.cpp",T+"TSArray.h",T+"TSMap.cpp"],[("two-pass string decoding: length then copy",J),("hexadecimalCharValue table, Text::WriteUnicodeChar",J),("AppendArrayElement / InsertAccountedMapElement during parsing",J),("strtod on an isolated copy of the literal",J)],
 ["StructuredData::GetRootJsonValue()","Value::GetDataAsPointerTo","ObjectValue::FindMapElement, begin, end"])
p("C03","A syntax error is reported with its true kind, line and column",
 "When a non-empty text is not valid JSON, the result carries a status other than success that names what the parser required or found wrong at the error, and a line and column (both from 1, columns in bytes) counted from the beginning of the text as it was given. The position is never after the first byte at which the text stops being the beginning of any JSON text, and never before the token that contains that byte. The textual form of the result contains that status description, line and column.",
 ["inputs"],"for every invalid text, with any arrangement of whitespace and line ends",
 "One test checks a single error position; leading blank lines, errors inside strings, errors at the end of the text and errors after nested values are never tried.",
 [J],[("ParseJsonRoot computes line and column by walking back from the error",J),("statuses returned by each Parse function; backtracking in ParseAnyValue",J),("ParseResultToString",J)],
 ["ParseResult {status, errorLine, errorColumn}","ParseResultToString"])
p("C04","Parsing any bytes is memory safe and terminates",
 "Parsing any buffer of any size and content, valid or not, returns: it reads only bytes of the buffer, writes only memory it owns, does not overflow the stack however deeply the text is nested, throws nothing and does not hang. Destroying the document, or parsing something else with the same object afterwards, is equally safe.",
 ["inputs"],"for every byte buffer, including empty, unterminated, truncated at any byte, maximally nested and arbitrarily long ones",
 "The tests parse a few well-formed files without any memory checker; truncations at each byte, malformed UTF-8 at the end of the buffer and deep nesting are never tried.",
 [J,H,T+"TSText.cpp",T+"TSString.cpp",T+"TSArray.h",T+"TSMap.cpp"],[("every scan stops at the terminating null byte",J),("MAX_NESTING_DEPTH",J),("minimum size and terminator checks",J),("ownership of partially built values on error paths",J)],
 ["any crash, sanitizer report, escaped exception or missing return of StructuredData::Parse"])
p("C05","A document object always holds one whole document or none",
 "At every point of every history of parsing, writing, serializing and deserializing with one object, the object holds either nothing or exactly the complete document of the last successful parse or serialization; a failed operation never leaves a partial document, a mixture, or a reference to a released one. A failed operation leaves either the previous document, untouched, or none. Reading operations (writing out, validating, deserializing, looking up) never change the document, and with no document they fail with a status instead of crashing.",
 ["histories"],"for every sequence of operations on one object, each succeeding or failing",
 "Each test uses an object once, for one successful parse; reuse after success or failure, and use without a document, are never exercised.",
 [J,H],[("rootJsonValue replaced by Parse and SerializeFrom",J+", "+H),("null checks in DeserializeTo, Validate and Write",H)],
 ["GetRootJsonValue and the statuses after each operation"],[dict(name="rootJsonValue",meaning="the owned document",where=H)])
p("C06","Writing a document and parsing the file gives the same document",
 "For every document, whether parsed or built by serialization, writing it to a file and parsing that file yields an equal document: same structure, member order, names, strings byte for byte, booleans, nulls, and numbers bit for bit. This holds for every document of valid strings whose file is within the size limit, for every indentation length and for every indentation character that is JSON whitespace. A document with a number that JSON cannot express (infinity or NaN) is refused with an error instead.",
 ["inputs","configurations"],"for every document and every legal indentation setting",
 "One test writes one file with ordinary strings; names and strings with quotes, backslashes, control characters or non-ASCII text, empty containers, deep nesting and extreme numbers are never written.",
 [J],[("Write of each value class; WriteStringLiteral",J),("%.17g",J),("insertionOrder drives ObjectValue::Write",J)],
 ["file contents","StructuredData::Parse(fileName)"])
p("C07","A written file is valid JSON, in insertion order, indented as asked",
 "Every file that writing reports as successful is a valid JSON text of the document: every member of every object appears once, in the order in which the members were parsed or serialized, and every element of every array in order. Each member, element and closing bracket starts its own line, preceded by exactly the requested number of copies of the requested indentation character (JSON whitespace) per level of nesting. Written numbers and strings denote the stored values exactly.",
 ["inputs","configurations"],"for every document, indentation length and indentation character",
 "One test compares nothing about layout and uses the default indentation only.",
 [J],[("ArrayValue::Write, ObjectValue::Write with a shared indentation array",J),("ExpandArray",J),("insertionOrder",H)],
 ["bytes of the written file"])
p("C08","Writing replaces the file completely or reports that it did not",
 "If writing returns success, the destination holds exactly the document's text and nothing else, whatever the file held before and however the operating system splits, shortens or delays the writes. If opening, any write or closing fails at any point, the returned status says so and is never success. The file is closed again in every case, and when there is no document to write the destination is left as it was.",
 ["fault_sequences","histories"],"for every placement of short writes and failures among the calls, and every previous content of the destination",
 "The tests write to a fresh file on a disk that never fails.",
 [J],[("File::OpenFile truncates; File::WriteFile loops over partial writes",J),("StructuredData::Write checks the file's failure flag after closing",J)],
 ["destination bytes, returned Status, open file descriptors"])
p("C09","Reading a file gives the same result as its bytes, or a file error",
 "Parsing a file gives exactly the result (status, position, document) of parsing a null-terminated buffer with the file's bytes, however the operating system splits the reads. A file that cannot be opened, read completely or is longer than 65534 bytes is reported as such, and never as a success or with a document made of other bytes; a file of up to 65534 bytes is never refused for its size. The file is closed again in every case and the call always returns.",
 ["fault_sequences","inputs"],"for every file content and size, and every placement of short reads, early ends and failures among the calls",
 "The tests read small existing files whose single read call never falls short.",
 [J],[("File::ReadFile loop",J),("File::GetFileSize and MAX_FILE_SIZE",J),("StructuredData::Parse(fileName)",J)],
 ["ParseResult, document, open file descriptors"])
p("C10","Deserialization fills in exactly what the document says, or names why not",
 "Deserializing a document into a described type succeeds if and only if every required member is present and every present member (required or optional, at any depth, inside arrays, vectors and maps) has a value of the type's kind; then every described member holds the document's value, containers hold exactly the document's elements in order or under their names, absent optional members keep their previous value and members that the type does not describe are ignored. (A map keeps the elements it already had under other names.) Otherwise the status tells a missing required member from a value of the wrong kind. A scalar target for which the document has no value, or none of its kind, keeps its previous value in either case.",
 ["inputs","programs"],"for every document and every type built from the supported member types",
 "The tests deserialize a few types from one matching document each; missing, optional, null, extra and wrongly typed members are hardly tried.",
 [H,J],[("Deserialize overloads for values, arrays, maps, vectors and strings",H),("DeserializeProto with optional",H),("DEFINE_JSON4C4_FUNCTIONS / DEFINE_JSON4C4_MEMBER_FUNCTIONS",H)],
 ["StructuredData::DeserializeTo status and target contents"])
p("C11","Validation predicts deserialization and changes nothing",
 "For every document and every described type, validating the document against the type returns the same status as deserializing the document into a value of that type would. Validation changes neither the document nor the value it is given.",
 ["inputs","programs"],"for every document and every type built from the supported member types",
 "Validation is called in one test, on a document that matches.",
 [H,J],[("Validate overloads mirror the Deserialize overloads",H),("ValidateProto with optional",H)],
 ["Json::Validate status versus DeserializeTo status"])
p("C12","Serializing and deserializing returns the same value",
 "For every value of every described type, serializing it and deserializing the result into a fresh object gives an equal value, directly as well as by way of a written and parsed file (for strings without null characters and files within the size limit). The serialized document has exactly the members of the description, in its order (sorted by name for maps), and arrays and vectors become JSON arrays, maps and described types JSON objects. Serializing into an existing value of a document replaces the elements of an array or map, and is refused, without change, by a value of another kind.",
 ["inputs","programs"],"for every value of every type built from the supported member types, including empty containers",
 "One test round-trips one value; maps, vectors, nested containers and empty containers are not written at all.",
 [H,J],[("Serialize overloads and Detail::CreateValueFor",H),("InsertAccountedMapElement / PurgeAccountedMap",J)],
 ["SerializeFrom, Write, Parse, DeserializeTo"])
p("C13","Running out of memory at any allocation is reported and harmless",
 "If any single memory allocation made during parsing, writing, serializing, deserializing or validating fails, the operation returns the exception status instead of success, throws nothing, and does not crash. Nothing is leaked or released twice, and the same objects can be used, and give correct results, as soon as memory is available again.",
 ["fault_sequences"],"for every operation and every allocation within it that fails (or it and all later ones)",
 "No test makes an allocation fail.",
 [H,J,T+"TSString.cpp",T+"TSArray.h"],[("MayThrow around every allocating step",H),("deleting values that could not be attached",J),("String and Array change their state only after allocating",T+"TSString.cpp")],
 ["statuses, live allocations, later operations"])
p("C14","Every history of operations frees exactly what it allocated",
 "However parsing, serializing, writing, deserializing and destroying documents are combined, each document, value, string and container is released exactly once, at the latest when the owning object is destroyed. Replacing a document, failing to parse a text at any point, repeated member names and repeated use of one object accumulate nothing.",
 ["histories","inputs"],"for every sequence of operations and every (valid or invalid) text",
 "The tests end after one operation and look at no memory.",
 [H,J,T+"TSMap.cpp",T+"TSArray.h",T+"TSString.cpp"],[("virtual destructors and Map::~Map / ArrayValue::~ArrayValue",J),("delete on error paths of ParseValue, Parse, Serialize",J),("PurgePointerArray / PurgeAccountedMap",H)],
 ["number of live allocations before and after; sanitizer reports"])
p("C15","Operations on different objects never influence each other",
 "Operations on distinct document objects running in different threads give, under every interleaving, the same results as when they run alone. No hidden shared state makes one operation see or disturb another's data. The same holds for operations that only read, when they share a document.",
 ["schedules"],"for every pair of operations on distinct objects and every interleaving",
 "The tests are single-threaded.",
 [J,H,T+"TSText.cpp",T+"TSString.cpp"],[("no mutable static state; all buffers are locals or members",J)],
 ["results of both operations under a controlled scheduler"])
p("C16","The map container is an ordered dictionary with logarithmic depth",
 "Under every sequence of insertions, replacements, removals, detachments, purges and reservations, a map holds exactly the elements a sorted dictionary would, finds each by its key, iterates forwards and backwards and indexes them in ascending key order, counts them, and knows which elements belong to it. Its tree stays height-balanced, so that no search path exceeds the AVL bound. Inserting a second element with a key refuses it; replacing returns the old one.",
 ["histories"],"for every sequence of map operations",
 "Only the insertion of a few keys through JSON objects is exercised; removal and replacement never.",
 [T+"TSMap.cpp",T+"TSMap.h"],[("RotateLeft/Right, ZigZagLeft/Right, balance updates",T+"TSMap.cpp"),("RemoveBranchNode",T+"TSMap.cpp"),("ReplaceMapElement",T+"TSMap.cpp")],
 ["Map's public interface"],[dict(name="balance",meaning="height difference of a node's subtrees",where=T+"TSMap.cpp")])
p("C17","The array container is a sequence",
 "Under every sequence of appending, inserting (also elements of the array itself), removing, resizing, reserving, clearing, copying and moving, an array holds exactly the elements, in the order, that a mathematical sequence would, reports their count, compares equal exactly to arrays with equal elements and finds the first index of a value. Every element is constructed and destroyed exactly once, whatever the element type and whether the array has inline storage or not.",
 ["histories"],"for every sequence of array operations, for trivial, string-like and nested element types",
 "The tests only append a few elements by way of parsing.",
 [T+"TSArray.h"],[("SetReservedCount moves the elements",T+"TSArray.h"),("InsertArrayElement / RemoveArrayElement shift the elements",T+"TSArray.h"),("copy and move constructors",T+"TSArray.h")],
 ["Array's public interface; construction and destruction counts"])
p("C18","The string type holds exactly the text put into it",
 "Under every sequence of assignments, appends, copies, moves, length changes and case conversions, a string holds exactly the text the operations define, null-terminated, with the matching length, whatever its previous length and however the lengths relate to its internal storage. Copies are independent of their originals, a string may be assigned or appended to itself, and comparison orders strings by unsigned bytes. Fixed-capacity strings do the same up to truncation at their capacity.",
 ["histories","inputs"],"for every sequence of string operations and all lengths across the storage boundaries",
 "The tests hold a few short strings, each assigned once.",
 [T+"TSString.cpp",T+"TSString.h",T+"TSText.cpp"],[("local storage of 16 bytes, heap storage in steps of 64",T+"TSString.cpp"),("Resize / SetStringLength / operator +=",T+"TSString.cpp"),("Text::CopyText, Text::CompareText*",T+"TSText.cpp")],
 ["String's public interface"],[dict(name="logicalSize, physicalSize, stringPointer",meaning="length, capacity and storage",where=T+"TSString.h")])
p("C19","Unicode text conversions are exact for every code point",
 "Encoding a code point in UTF-8 and decoding it, validating UTF-8, counting characters and converting between UTF-8 and UTF-16 agree with the Unicode standard for every code point from U+0001 to U+10FFFF except surrogates, and every byte sequence that is not the encoding of a code point is recognised as invalid. Converting a text to UTF-16 and back gives the same text, and the announced lengths are the lengths actually produced.",
 ["inputs"],"for every code point, every short byte sequence and every text built from them",
 "The tests contain little beyond ASCII.",
 [T+"TSText.cpp",T+"TSText.h",J],[("ValidateUnicodeChar, ReadUnicodeChar, WriteUnicodeChar, GetUnicodeCharByteCount, GetUnicodeCharCount",T+"TSText.cpp"),("ConvertWideTextToString, GetWideTextCharCount, GetUnicodeStringLength",T+"TSText.cpp")],
 ["Text functions; parsed strings"])
p("C20","Numbers are read and written without losing a bit",
 "Every number literal is read as the double nearest to its decimal value (ties to even, overflow to infinity, underflow to zero or a subnormal, the sign of zero kept). Every finite double that is written is written as a JSON number that reads back as the same bits, within any document position.",
 ["inputs"],"for every number literal and every finite double",
 "The tests contain a few short decimals.",
 [J],[("ReadDoubleLiteral: strtod on a copy of the literal, sign applied afterwards",J),("NumberValue::Write with 17 significant digits",J)],
 ["GetDataAsPointerTo<double>, written file"])
p("C21","Every status has its own correct description",
 "Each status value that any operation can return is described by its own, distinct, non-empty text, which belongs to that status and not to another. The description of a parse result consists of the status's description and, exactly when a position is known, the line and the column in decimal, complete and untruncated. Descriptions are available for every status without touching memory outside the descriptions.",
 ["inputs"],"for every status value and every line and column",
 "No test looks at a description.",
 [J,H],[("StatusString table parallel to enum Status",J),("StatusToString / ParseResultToString",J)],
 ["StatusToString, ParseResultToString"])
p("C22","Typed access returns a value exactly when it has that type",
 "Asking a value for its data as a string, number, boolean, null, array or object returns that data if the value is of that kind, and nothing otherwise, for every kind of value; exactly one kind applies to each value. Looking up a member of an object by name, with or without a kind, finds exactly the member with that name (compared byte for byte, whatever other names are there), and iteration visits each member once, in ascending order of name.",
 ["inputs"],"for every document, every value in it and every name",
 "The tests look up a few present names with the right type.",
 [H,J],[("GetDataAsPointerTo specialisations over virtual Get...Data",H),("FindString, FindNumber, FindBool, FindJsonNull, FindJsonValueArray, FindJsonObjectValue",J),("ObjectValue::FindMapElement",J)],
 ["Value and ObjectValue public interface"])
p("C23","Behaviour does not depend on how the library is built",
 "Built with or without standard-library support, with or without exceptions, with either compiler, with signed or unsigned plain char and at any optimisation level, the library gives the same results for the same operations: the same statuses and positions, the same documents, the same written bytes.",
 ["configurations","inputs"],"for every supported build configuration and every input",
 "The tests run in the one configuration they were built in.",
 [H,J,T+"TSPlatform.h",T+"TSText.cpp"],[("JSON4C4_DISABLE_STD_SUPPORT, __cpp_exceptions in MayThrow",H),("unsigned byte views of text",J+", "+T+"TSText.cpp")],
 ["transcripts of the same operations from each build"])
p("C24","Texts are compared, searched and scanned by their contents",
 "Comparing, searching, copying, counting, hashing and scanning texts depends only on the bytes up to the terminating null (or the given limit, beyond which nothing is read or written). Equality and order, with and without case, are those of unsigned byte strings (letters A-Z and a-z equal without case); the numbered order compares runs of digits as numbers of any size and is a strict weak order; a search finds the first occurrence outside whatever the function excludes; an integer or a number at the start of a text is read entirely as far as the room allows, with sign and exponent; four-character types become text and back; compile-time and run-time hashes agree for every text.",
 ["inputs"],"for every text, pair of texts, character and limit",
 "The tests reach these functions only through a few short member names.",
 [T+"TSText.cpp",T+"TSText.h"],[("CompareText..., CompareNumberedTextLessThan, FindText, FindUnquotedChar, CopyText, ReadString, ReadInteger, ReadFloat, ReadType, Get...Length",T+"TSText.cpp"),("StringToType, TypeToString, TypeToHexCharString",T+"TSString.cpp"),("StaticHash",T+"TSText.h")],
 ["return values and output buffers of the Text functions"])
p("C25","Strings and arrays survive running out of memory",
 "When an operation of a string or an array cannot get the memory it needs, the caller receives std::bad_alloc and nothing is broken: the string has exactly the text it had; the array has all the elements it had, in order, at most followed by some of those that were being added at its end; operands (other than moved ones) are unchanged; no memory is lost, released twice or written beyond its end, then or later; and the object then works as usual, including for the same operation when there is memory again.",
 ["fault_sequences","histories"],"for every operation, every one of its allocations that fails, and every history before and after",
 "The tests never run out of memory.",
 [T+"TSString.cpp",T+"TSString.h",T+"TSArray.h"],[("Resize, SetStringLength, operator +=, AppendString, EncodeEscapeSequences: the new block is obtained before anything changes",T+"TSString.cpp"),("SetReservedCount, AppendArrayElement, InsertArrayElement, SetArrayElementCount: elements are counted as they are constructed",T+"TSArray.h")],
 ["exceptions from, and contents after, the public operations of String and Array"])
p("C26","A type's own functions take part exactly like the library's",
 "Where a user's type has its own serialization, deserialization and validation functions (free or member functions, with any JSON kind as its value), an operation on a document calls exactly the function for that operation, once for each value or present member of that type, in the order of the description, array or sorted names, at every position: alone, as a required, optional or unnamed member, and as element of arrays, vectors and maps at any depth. The first status other than success that one of them returns ends the operation and is its result; an exception thrown by one is reported as the exception status. Nothing is leaked, and the same objects can be used again with correct results.",
 ["programs","fault_sequences","histories"],"for every position of such a type, every call that fails, every status or exception, and every operation afterwards",
 "The tests contain no function of their own that fails, and only one type with member functions, alone.",
 [H],[("Detail::HasSerializeMember and argument-dependent lookup of Serialize, Deserialize, Validate",H),("SerializeProto, DeserializeProto, ValidateProto",H),("MayThrow",H),("StructuredData::SerializeFrom, DeserializeTo",H)],
 ["status of the operation, calls of the user's functions, documents, live allocations"])
p("C27","A document can be edited in place",
 "The values of a document can be changed through the pointers and functions the interface gives for them: scalars by assigning to their data; any value by serializing into it, which replaces the content of a value of the same kind and is refused, without change, by another kind; members by serializing under a name (or a described type's members), which adds them behind the members of an object, leaves a member alone that is already there, appends to an array and is refused by any other value; elements by rearranging, deleting and moving the pointers of an array. After every sequence of such changes, at whatever depth and however the document was made, the document is exactly the changed one: looking up, reading any value or member of it as any type, writing (in order) and parsing agree, and each value is released exactly once.",
 ["histories"],"for every document, every sequence of changes and every place where they are made",
 "The tests never change a document.",
 [H,J],[("Serialize( Value*, const char* name, ... ), Serialize( Value*, ... ), SerializeProto",H),("Value::GetDataAsPointerTo (changeable)",H),("ObjectValue::InsertAccountedMapElement, PurgeAccountedMap, Write",J)],
 ["Value, ArrayValue and ObjectValue public interface, Serialize, Deserialize and Validate on a value and by name, written files"])
M=T+"TSMath.cpp"; MH=T+"TSMath.h"
p("C28","The number helpers compute their functions for every argument",
 "For every argument, and in the build with as in the one without SIMD, the integer helpers (absolute value, sign, minimum, maximum, modular steps, exchange, leading zeros, logarithm and powers of two, filling and copying memory) and the single-precision helpers that select or round (absolute value, signs, minimum, maximum, clamping, rounding down and up, fraction) give exactly the mathematical result wherever it is defined and representable (the one-sided and combined rounding functions for magnitudes up to 2^23). The approximations are close to the true result over their whole domain: square roots within a relative error of 1e-5 for normal numbers; sine and cosine within 1e-6 + 2.5e-7 |x| for |x| up to 2^20, and the tangent accordingly; arcsine and arccosine within 1e-5, arctangent within 1e-6, exponential within a relative error of 3e-6 (zero and infinity beyond the range), logarithm within 2e-6 + 5e-7 |log x| for normal numbers. A float as text is a null-terminated decimal number of the announced length, never longer than the room, whose value is within a relative error of 3e-5 (or 3e-5 absolutely, between 1e-4 and 1e5) if there is room for 15 characters; a string made of a float holds that text. No argument makes them read outside their tables.",
 ["inputs"],"for every 32-bit argument of each function, and for every combination of several arguments",
 "No test calls any of these functions.",
 [M,MH,T+"TSBasic.h",T+"TSPlatform.h",T+"TSText.cpp"],[("Sqrt, InverseSqrt, Sin, Cos, Tan, CosSin, Arcsin, Arccos, Arctan, Exp, Log",M),("Fabs ... Clamp, Floor, Ceil and their variants",MH),("VecFloorScalar and the other scalar operations",T+"TSSimd.h"),("Abs, Sgn, Min, Max, IncMod, DecMod, Exchange, Cntlz, Pow2Floor, Pow2Ceil",T+"TSBasic.h"),("Text::FloatToString",T+"TSText.cpp"),("CopyMemory, FillMemory, asfloat, asuint",T+"TSPlatform.h")],
 ["results of the public helper functions"])
S=T+"TSSimd.h"
p("C29","The vector helpers compute their scalar definition in every lane",
 "For all inputs in its domain, each helper of the four-lane (and, in a build with AVX, eight-lane) vectors gives, in every lane its name speaks of (all four; the lowest for the Scalar, Dot, HorizontalSum variants; three for Project, Reject, Cross), the result of its scalar definition: negation, signs, sum, difference, product, quotient, minimum, maximum, multiply-add, comparisons and masks, bitwise operations, selection, and, for numbers, rounding up and down (Floor and Ceil of every magnitude, one-sided and combined variants up to 2^23) exactly, square roots and inverse square roots within a relative error of 1e-6 (normal numbers); truncation and conversion from and to integers; dot products, projections, rejections, cross products and transformations by columns; every shuffle, smear and constant; saturating packing, unpacking, merging and deinterleaving of 8-, 16- and 32-bit integers. Loads read and stores write exactly the elements they are named for, in their order, and nothing beside. The builds for SSE and AVX agree with the same definition.",
 ["inputs"],"for every float in every lane, every combination of boundary values, every shuffle and every place in a block",
 "No test calls any of these functions.",
 [S],[("VecFloor, VecCeil and their variants, VecSqrt, VecInverseSqrt, signs",S),("VecMin ... VecDiv, masks, selection, comparisons",S),("VecDot3D ... VecTransformPoint3D",S),("VecLoad..., VecStore..., VecSmear..., VecShuffle",S),("VecInt32PackSaturate ... VecInt16Deinterleave",S),("Exv... (AVX)",S)],
 ["results of the public helper functions, and memory beside stored elements"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
