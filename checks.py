"""What each check builds and what it explores (used by ./check and by tools/mkmanifest.py)."""

ASSUME = [
    "the compiler, the C and C++ runtime and the kernel behave as documented",
    "the locale is C",
]

PLAIN = ["-O2"]
ASAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]

TEXTS = ("Every prefix that some JSON text can start with, over several alphabets up to a length, is enumerated depth-first in a pushdown-automaton model of "
         "RFC 8259; at every configuration every token of the alphabet is tried, once staying in the language and once leaving it, and each text is run through the "
         "real parser and compared with the model. Sweeps: every automaton configuration x every byte x continuations, every \\uXXXX escape, every surrogate pair, every "
         "raw code point, every 2- and 3-byte sequence, lengths, nesting depths, member name sequences, every one-byte change of sample documents.")

CHECKS = {}


def parse(pid, n, explored):
    CHECKS[pid] = dict(builds=[dict(name="plain", src=["parse.cpp"], flags=PLAIN + ["-DPROP=%d" % n])], explored=explored,
                       bounds="quick: structure 8 bytes, numbers 7, strings 6, literals 9, 8 tokens, 6 member names; thorough: 10/9/7/11/10 and 7 names; see phases")


parse("C01", 1, TEXTS + " Checked: accepted exactly when the model accepts.")
parse("C02", 2, TEXTS + " Checked for accepted texts: the tree seen through the public interface equals the tree of an independent builder.")
parse("C03", 3, TEXTS + " Checked for refused texts: the status is one that names the model's error, and line/column denote a byte of the offending token.")

CHECKS["C04"] = dict(
    builds=[dict(name="asan", src=["safe.cpp"], flags=ASAN + ["-fsanitize=bounds,return,unreachable,bool,enum,alignment", "-fno-sanitize-recover=all"])],
    explored=TEXTS + " In addition every raw buffer over an 18-byte alphabet with null bytes, unterminated cuts of documents and nesting up to millions of levels. Every "
                     "execution runs under AddressSanitizer (and the memory-related checks of UndefinedBehaviorSanitizer) with the slack after the buffer poisoned, an 8 MiB stack and a time limit; the tree is "
                     "walked, another text is parsed with the same object, and the object is destroyed.",
    bounds="quick: structure 6, numbers 5, strings 4, raw buffers 5 bytes, depth 10^6; thorough: 8/7/5/6, depth 5*10^6",
)

TYPES = ("A family of more than 50 described types (all scalar kinds, arrays, vectors and maps of them, nested containers, described types with required and optional members, member-function "
         "descriptions, unnamed members, alike names) with an independent model of each.")
for pid, n, what in (
        ("C10", 10, "For each type every document of a bounded space around it (every kind at every position, every subset and pair of deviating members, sequences of elements, "
                    "undescribed members, other member orders) is parsed and deserialized by the real code into values with different previous contents; status and resulting value are compared with the model."),
        ("C11", 11, "For each type and every document of the bounded space, the status of Validate equals that of DeserializeTo on the real code, and value and document are unchanged."),
        ("C12", 12, "Every value of a bounded space of values of each type is serialized, compared with the model document (content and order), deserialized directly and by way of a written file, and compared; and serialized into "
                    "existing values of the same and of other kinds.")):
    CHECKS[pid] = dict(builds=[dict(name="plain", src=["typed.cpp"], flags=["-O0", "-DPROP=%d" % n])], explored=TYPES + " " + what,
                       bounds="per type: scalars from a fixed set of special values, up to 3 elements/2 members, sizes to 80 and some to 65537, up to 2 deviating members, nesting as the type; thorough: one level deeper")

HIST = ("Every sequence of operations, up to a length, from an alphabet of 36 on one document object: parsing good, malformed, truncated, trailing, empty, unterminated texts; parsing good, malformed, cut, "
        "missing, empty, too large files and a directory; serializing scalars, described types, arrays, maps; serializations that fail at the root, in a member, in an element; deserializing, validating, writing, looking up. ")
CHECKS["C05"] = dict(builds=[dict(name="asan", src=["history.cpp"], flags=["-O1", "-fsanitize=address", "-DPROP=5"])],
                     explored=HIST + "After every operation the real object's document is compared with a model that is either nothing or the document of the last successful operation, under AddressSanitizer.",
                     bounds="all histories of 4 operations (quick), 5 (thorough), every prefix checked")
CHECKS["C14"] = dict(builds=[dict(name="plain", src=["history.cpp"], flags=["-O0", "-DPROP=14"]),
                             dict(name="asan", src=["history.cpp"], flags=["-O1", "-fsanitize=address", "-DPROP=14", "-DSHALLOW=1"])],
                     explored=HIST + "Each history is run on the real code three times on one object and the live heap blocks and bytes compared after each run and after destruction (replaced operator new/delete, which also "
                                     "notices a second release and a release by the wrong form); the same for every text of the bounded spaces of C01 and for every type of the family of C10 with its documents.",
                     bounds="all histories of 4 operations (quick), 5 (thorough); with AddressSanitizer one less; texts as C01 with smaller bounds; documents with one deviation")

DOCS = ("Documents enumerated: every tree of up to 6 values over all kinds and both containers, every code point in strings and names, every sequence of special characters, all string lengths, element counts and "
        "depths up to a bound, every order (with repetitions) of up to 6 member names, doubles of every binary exponent, values of more than 50 described types; written by the real code with indentation lengths 0-70 and boundary lengths up to 10000 and all four whitespace characters. ")
for pid, n, what in (
        ("C06", 6, "Each written file is parsed by the real code and compared with the reference document; writing it again must give the same bytes; infinities and NaN must be refused."),
        ("C07", 7, "Each written file is judged by the RFC 8259 automaton, rebuilt independently and compared including member order, and followed byte by byte for line structure and indentation.")):
    CHECKS[pid] = dict(builds=[dict(name="plain", src=["write.cpp"], flags=["-O0", "-DPROP=%d" % n])], explored=DOCS + what,
                       bounds="quick: trees of 6, 3 special characters, lengths to 700, 6 names; thorough: 7, 4, 3000, 7")

IOLINK = ["-Wl," + ",".join("--wrap=" + f for f in ("open", "open64", "openat", "creat", "read", "write", "close", "fstat"))]
for pid, n, what in (
        ("C08", 8, "For every document of a set and several previous contents of the destination, every assignment of answers to the calls (open, write, close) with up to 2 (thorough 3) answers other than normal - error, EINTR, "
                   "1 byte, half, 0 bytes - is enumerated depth-first over the calls the real code makes; also transfers limited to n bytes, real file size limits at every byte, /dev/full, directories, and previous contents of every size."),
        ("C09", 9, "For documents and malformed texts in files, every assignment of answers to the calls (open, fstat, read, close) with up to 2 (thorough 3) answers other than normal is enumerated depth-first over the calls the real "
                   "code makes; also transfers limited to n bytes, all sizes up to and around the limit, the texts of C01 as files. Compared with parsing a buffer of the same bytes and with the reference model.")):
    CHECKS[pid] = dict(builds=[dict(name="plain", src=["io.cpp"], flags=["-O1", "-U_FORTIFY_SOURCE", "-DPROP=%d" % n], link=IOLINK)], explored=what,
                       bounds="2 (thorough 3) deviating answers in small documents, 1 in larger ones", assume=["the library reaches the operating system through open, fstat, read, write and close (calls made otherwise are not made to fail)"])

CHECKS["C13"] = dict(builds=[dict(name="plain", src=["oom.cpp"], flags=["-O0"])],
                     explored="For parsing (fresh, over a document, from a file), writing, serializing, deserializing (into fresh and filled values) and validating, over all document trees of a bounded size, growth-boundary sizes, "
                              "malformed texts and more than 50 described types: the number of allocations is measured and then each one is made to fail in the real code, alone and together with all later ones. Checked: status, no escape of an exception, "
                              "no leak, no double or wrong release, no partial document, unchanged inputs, and a correct result of the same objects when the operation is repeated with memory.",
                     bounds="trees of 4 (thorough 5) values; documents with one (thorough two) deviating members per type; all allocations of each operation",
                     assume=["memory is obtained through operator new (the C library's own allocations do not fail)"])

CHECKS["C16"] = dict(builds=[dict(name="asan", src=["map.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="The map compares keys only, so its state is the tree's shape. Every height-balanced shape up to a size is built in the real map, and every operation (insert, refused insert, replace, reserve, remove, detach, delete, "
                              "move to and from another map, remove all, purge) at every position is applied, in sequences; also every insertion order and every insertion order with every removal order. After each operation the map is "
                              "compared with a sorted dictionary through every public way of looking at it, the tree's balance is measured, and each element's destruction counted, under AddressSanitizer.",
                     bounds="quick: all shapes to 16 elements with one operation, to 12 with two, to 8 with three, to 6 with four; 8! insertion orders, 6!x6! insertion and removal orders; thorough: 19, 14, 12, 8, 9!, 7!x7!")

CHECKS["C17"] = dict(builds=[dict(name="asan", src=["array.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="Every sequence of operations, up to a length, from an alphabet of 41 (append by copy, by move and default; insert by copy and move at and beyond the ends and between; remove; resize with and without a value; "
                              "reserve; clear; purge; copy, move) on arrays with inline capacity 0, 1, 2, 4, 5, of elements that know their address and count their constructions and destructions, of numbers, strings and arrays, from every initial "
                              "size and reservation of a range. After each operation the real array is compared with a sequence; comparisons and searches, live elements and live blocks are checked, under AddressSanitizer.",
                     bounds="quick: three operations from 8 sizes (two element types, five capacities), two from 85 initial states and all types, four from the main 20; thorough: also four of all, five and six of the main 20")

CHECKS["C18"] = dict(builds=[dict(name="asan", src=["string.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="Every sequence of operations, up to a length, from an alphabet of more than 100 (assigning and appending texts of lengths around every storage boundary, characters, signed and unsigned numbers with their extremes, the other "
                              "string, the string itself and parts of itself; copies, moves, sums, lengths, case, replacement, escaping) on two strings of the dynamic type and of fixed capacities 1, 4, 7, 24, 100 and 256, from every pair of initial lengths. "
                              "After each operation both real strings are compared with their models (text, terminator, length), then with each other by every operator, under AddressSanitizer with live blocks counted. Also comparisons of all "
                              "pairs of short texts and of all pairs of bytes, and numbers to text with every room.",
                     bounds="quick: two operations from all 121 pairs of lengths and 7 capacities, three of all from 3, four of the main 26; thorough: three from all pairs, five of the main, four of all")

CHECKS["C19"] = dict(builds=[dict(name="asan", src=["unicode.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="Every code point (and the numbers beyond), every sequence of one to three bytes and every four bytes with boundary values (thorough: every four bytes), every UTF-16 unit and surrogate pair, every text of up to a number of "
                              "characters at the boundaries of each encoded length, of bytes of every class and of UTF-16 units of every class. The real encoding, decoding, validation, counting, stepping and conversion functions are compared with "
                              "an independent model of table 3-7 of the Unicode standard; conversions with every amount of room. Texts end at the end of their memory block, under AddressSanitizer.",
                     bounds="quick: 4 characters, 5 bytes, 5 units; thorough: 5, 6, 6 and all 2^32 four-byte sequences")

CHECKS["C20"] = dict(builds=[dict(name="plain", src=["number.cpp"], flags=["-O2"])],
                     explored="Number literals: every combination of sign, integer part, fraction and exponent form from sets with all boundaries, every number of a few digits with every exponent, integers, the exact decimal midpoints between neighbouring "
                              "doubles of every binary exponent and the literals just below and above them, digit strings of every length, next to every token. Doubles written: every binary exponent with significands of every bit pattern class, decimal values, "
                              "integers and fractions. The real parser's and writer's results are judged by exact big-integer comparison with the bounds of the double's rounding interval.",
                     bounds="quick: 2047 exponents x 10 significands, numbers to 4999 x 658 exponents, 500 lengths; 3 million doubles written; thorough: numbers to 99999, 1500 lengths, 35 million doubles")

CHECKS["C21"] = dict(builds=[dict(name="asan", src=["status.cpp"], flags=["-O1", "-fsanitize=address", "-fsanitize=bounds", "-fno-sanitize-recover=all"])],
                     explored="Every status value: its description is compared with what the status means (words it has to and must not contain) and with all other descriptions. Every status with every line and column from a set of several hundred values "
                              "(all small ones, all lengths, powers, INT_MAX). Situations that provoke statuses through parsing, files, writing and deserializing. Every text of the bounded spaces of C01 is parsed "
                              "by the real code and the description of its result checked. Under AddressSanitizer.",
                     bounds="29 statuses; 500 x 500 positions per status (quick: a part of the pairs); texts: structure 6, numbers 5, strings 4 (thorough 8, 7, 5)")

CHECKS["C22"] = dict(builds=[dict(name="asan", src=["access.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="Every document tree of up to 6 values over all kinds and both containers, every kind under every pair of names, every sequence (with repetitions) of names that differ in length, case, sign bit or are prefixes of each other, "
                              "all pairs of characters as names, many members in several orders. For every value of the real document, every kind is asked for (constant and changeable); for every object, every member name and many near misses are looked up, "
                              "with and without each kind, and iteration is compared with the names in byte order; scalars are changed through the pointers and everything is checked again. Under AddressSanitizer.",
                     bounds="quick: 6 values, 5 names of 15; thorough: 7 values, 6 names")

CHECKS["C25"] = dict(builds=[dict(name="asan", src=["oomc.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="For strings of every length around the storage boundaries and arrays (inline capacity 0, 1, 2, 5) of every small size, of elements that own memory, strings and numbers: every history of a few operations whose last one runs out of "
                              "memory, at each of its allocations, alone and together with all later ones. Checked on the real code: std::bad_alloc reaches the caller, the object has what it had (an array perhaps also some of the elements being added), operands are "
                              "unchanged, every element is constructed and destroyed once, no block is lost or released twice or wrongly; then each of ten other operations, and the failed one again with memory, have their usual result. Under AddressSanitizer.",
                     bounds="strings: 17 lengths, 253 operations, two operations (quick), three of the main 25; arrays: 168 initial states, 57 operations, two; thorough: two of all, three, four of the main",
                     assume=["moving an array's elements does not throw"])

COV = ["-fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores"]
CHECKS["C15"] = dict(builds=[dict(name="threads", cxx="clang++", src=[("threads_ops.cpp", COV), "threads.cpp"], flags=["-O1"], libflags=COV),
                             dict(name="unoptimised", cxx="clang++", src=[("threads_ops.cpp", COV), "threads.cpp"], flags=["-O0", "-DLIGHT"], libflags=COV)],
                     technique="stateless model checking of the real code: two threads under a controlled scheduler, all schedules up to a preemption bound",
                     explored="21 operations (parsing good, malformed and missing texts and files, writing, serializing, deserializing, validating, looking up, statuses, strings, encodings, maps and arrays), each pair run by two real threads on objects of their own, of which the "
                              "scheduler lets one run at a time; every basic block, load and store of the library reports to the scheduler. Every schedule with one preemption of every pair, each also in a new process (first use), and with two "
                              "preemptions; if both operations touch the same static memory and one writes it, all schedules with three preemptions at those accesses. Both results must be those of the operation alone in a process of its own. "
                              "Also threads that read one document, all sequences of operations on different objects, and all sequences of steps on two documents compared with the steps on each alone.",
                     bounds="optimised, and (first use and static memory only; thorough: all) unoptimised code, in which variables stay in memory; quick: one preemption at every basic block, two at every basic block for equal small operations and at every fourth for different ones, three operations in sequence, four steps on two documents; "
                            "thorough: every load and store, two preemptions everywhere, four operations, five steps",
                     assume=["uninstrumented code (the C and C++ libraries) runs without being preempted", "sequentially consistent memory"])

NOSTD = "-DJSON4C4_DISABLE_STD_SUPPORT"
CHECKS["C23"] = dict(builds=[dict(name="builds", src=["cfg.cpp"], flags=["-O1", "-rdynamic"], link=["-ldl"], vsrc=["cfg_lib.cpp"], variants=[
                         dict(name="gcc-O2", flags=["-O2"]),
                         dict(name="gcc-O0-pattern", flags=["-O0", "-ftrivial-auto-var-init=pattern"]),
                         dict(name="gcc-O3-ndebug", flags=["-O3", "-DNDEBUG"]),
                         dict(name="gcc-Os-unsigned-char", flags=["-Os", "-funsigned-char", "-ftrivial-auto-var-init=zero"]),
                         dict(name="gcc-O1-nostd-nosimd", flags=["-O1", NOSTD, "-DTERATHON_NO_SIMD"]),
                         dict(name="gcc-O2-noexceptions-fortify", flags=["-O2", "-fno-exceptions", "-D_FORTIFY_SOURCE=3"]),
                         dict(name="gcc-O2-c++20-nostd-noexceptions", flags=["-O2", "-std=c++20", "-fno-exceptions", "-fno-rtti", NOSTD]),
                         dict(name="clang-O0-unsigned-char-nostd", cxx="clang++", flags=["-O0", "-funsigned-char", NOSTD]),
                         dict(name="clang-O2", cxx="clang++", flags=["-O2"]),
                         dict(name="clang-O3-noexceptions-pattern", cxx="clang++", flags=["-O3", "-fno-exceptions", "-ftrivial-auto-var-init=pattern", "-DTERATHON_EXPORT", "-fvisibility=hidden"]),
                     ])],
                     technique="explicit-state enumeration of inputs, each given to every build configuration of the real code; all builds must behave alike",
                     explored="Ten builds of the library (gcc and clang; no optimisation to -O3; with and without standard-library support, exceptions, run-time types, assertions; signed and unsigned char; C++17 and C++20; uninitialised variables "
                              "filled in different ways, and new memory filled differently for each) are loaded together and given every case: the texts of the bounded spaces of C01, documents and strings written in two styles, doubles "
                              "of every exponent written and read, integers to text, every status, the text functions on pairs of bytes and of short texts, and the documents around more than 50 described types (validated, deserialized, serialized, written). "
                              "Statuses, positions, documents and bytes must be the same in all. A configuration that does not compile while the usual one does is reported, too.",
                     bounds="quick: structure 6, numbers 5, strings 3; one deviating member per document; thorough: 8, 6, 5; two",
                     assume=["configurations that cannot be built here (32 bits, Windows, TERATHON_NO_SYSTEM) are not compared"])

CHECKS["C24"] = dict(builds=[dict(name="asan", src=["textfn.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="The functions that compare (with and without case, with a limit, with numbers), search, count, copy and scan texts, numbers and types and hash them, on every pair of texts up to a length over alphabets with the boundaries of every class of bytes, "
                              "all pairs of bytes, texts of all lengths up to a bound and large numbers, each text at the end of its memory block (with a limit: unterminated), under AddressSanitizer; results compared with independent models.",
                     bounds="quick: pairs of up to 2 of 12 characters, 4 of 5, 7 x 3 searched, 8 scanned; thorough: 3, 5, 8 x 4, 10")

CHECKS["C26"] = dict(builds=[dict(name="asan", src=["own.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="Types with functions of their own (free functions, member functions, free functions with a string as JSON value) alone and at every position of described types (required, optional, "
                              "unnamed, in classes with member functions), arrays, vectors, maps and nestings of these. Every call of an own function fails with every status or exception, before or after doing its "
                              "work, in every operation, followed by every operation on the same objects; and all short histories. Status, the sequence of calls, the resulting document or value and the memory are compared with the model, under AddressSanitizer.",
                     bounds="56 shapes, containers of 0 to 3 elements (thorough: 4), documents with and without optional and undescribed members; one failure and one more operation; histories of 2 or 3 operations (thorough: 3 or 4)")

CHECKS["C27"] = dict(builds=[dict(name="asan", src=["edit.cpp"], flags=["-O1", "-fsanitize=address"])],
                     explored="Every sequence of changes, up to a length, from an alphabet of 45 at every value of 20 documents (parsed ones of every shape, and serialized ones): assigning to scalars, serializing scalars, arrays, vectors, maps, described "
                              "types into values, serializing members of every kind under names that are there and that are not, failing serializations, deleting, exchanging, moving elements within an array, to the root and into an object, purging members. "
                              "After each sequence the document is compared with the model: through the tree, by validating and deserializing every value and member as seven types, as a written file with its order; and the live blocks are counted. Under AddressSanitizer.",
                     bounds="quick: two operations, three of the main 17, three on documents of up to 3 values; thorough: also three of all, four of the main on small documents")

SAN = ["-O1", "-fsanitize=address", "-DSMALL=1"]
CHECKS["C28"] = dict(builds=[dict(name="simd", src=["math.cpp"], flags=["-O2"]), dict(name="nosimd", src=["math.cpp"], flags=["-O2", "-DTERATHON_NO_SIMD"]),
                             dict(name="asan", src=["math.cpp"], flags=SAN), dict(name="asan-nosimd", src=["math.cpp"], flags=SAN + ["-DTERATHON_NO_SIMD"])],
                     technique="exhaustive enumeration of the arguments of the real functions (every 32-bit argument of the exact ones), compared with an independent reference",
                     explored="Every 32-bit integer and every float (quick: those whose low three or, for approximations, five bits are equal, and all within 40 units around the points where a function changes its piece) for roots, "
                              "trigonometric functions, exponential, logarithm and the text of a float; grids of boundary values for those with several arguments; all small rooms for texts. Built with and without SIMD, and with both under AddressSanitizer. "
                              "The results of the real functions are compared with the exact result or, where they are approximations, with the C library's double result and a bound on the error.",
                     bounds="quick: 2^30 floats for exact functions, 2^28 for approximations, 2^32 integers; thorough: 2^32 for all")


CHECKS["C29"] = dict(builds=[dict(name="sse", src=["simd.cpp"], flags=["-O2"]), dict(name="avx", src=["simd.cpp"], flags=["-O2", "-mavx"]), dict(name="asan", src=["simd.cpp"], flags=SAN)],
                     technique="exhaustive enumeration of the arguments of the real functions, compared with an independent scalar reference",
                     explored="Every float in every lane (quick: those whose low four bits are equal, and all within 20 units around every integer and half to 4096 and every power of two) for rounding, negation, signs, roots and conversions; every pair of 48 "
                              "values and triple for the functions of two and three arguments; every triple of pairs for comparisons of three lanes; 65536 exact products and transformations; every 16-bit value for packing; all shuffles; loads and "
                              "stores at 24 places of blocks of exactly that size. Each lane is compared with the scalar definition, and memory beside the stored elements with what it was. Built for SSE2, for AVX and under AddressSanitizer.",
                     bounds="quick: 2^29 floats per function; thorough: 2^32")