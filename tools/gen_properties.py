import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
H="zzzjson.h"
p("C01","Parsing accepts exactly the valid JSON texts",
 "Every parse entry point (fast, length-delimited, copying) returns success for a NUL-free byte string if and only if it is one RFC 8259 JSON text: any top-level type, any nesting depth, whitespace being only space, tab, LF and CR, no raw bytes below 0x20 in strings or keys, \\u escapes of four hex digits whose surrogates come in high-low pairs, and nothing but whitespace after the value. Bytes of 0x80 and above inside strings are accepted unexamined. All entry points give the same verdict on the same text.",
 ["inputs"],"all NUL-terminated byte strings and all (buffer,length) pairs without embedded NUL, parsed into fresh or already used values",
 "The conformance suite holds a few dozen fixed documents; the grammar is unbounded and single-character deviations (one escape, one separator, one position) are only visible on texts the suite does not contain.",
 [H],[("hand-written iterative parser, with the value switch duplicated for the root and for nested values","zzzjson.h zj_ParseFast"),("string and number scanners","zzzjson.h zj_consumeStr, zj_consumeNum, zj_consumeHex"),("literal scanners","zzzjson.h zj_consumeTrue/False/Null")],
 observe=["return value of ParseFast/ParseLen/Parse"])
p("C02","Stringify reproduces the parsed document without insignificant whitespace",
 "After a successful parse, Stringify yields exactly the input text with the whitespace outside strings removed: every token byte-for-byte verbatim, all members and elements present and in order, duplicates included. The result is itself valid JSON, parses again, and stringifies to the same text; stringifying any sub-value yields exactly that sub-value's compact text.",
 ["inputs"],"all valid JSON texts and every value reachable in them",
 "The round-trip tests use 27 small documents; loss or reordering that needs a particular shape, size (buffer growth) or depth is not sampled.",
 [H],[("iterative serializer over sibling/parent links with a growing buffer","zzzjson.h zj_Stringify, zj_appendStr, zj_appendChar")],
 observe=["Stringify result"])
p("C03","Reading and navigation report exactly the parsed document",
 "For every value of a parsed document, type, element count, iteration (begin/next), indexed access, key lookup, key, raw string, raw number, boolean and null queries report exactly what the text says: indexes at or beyond the size and absent keys yield no value, lookup compares the key's bytes as written and returns the first match. A query that does not apply to the value's type (or to an empty value) yields no result. Fast, length-delimited and copying variants of a query agree.",
 ["inputs","histories"],"all valid documents, every node, every key/index argument present or absent, queries in any order and repeated",
 "Unit tests read a few fixed documents; prefix keys, duplicate keys, empty keys, out-of-range indexes and large containers are combinations they do not enumerate.",
 [H],[("sibling list walk","zzzjson.h zj_Begin, zj_Next, zj_ArrayGet, zj_ObjGet, zj_ObjGetLen, zj_SizeOf"),("key comparison","zzzjson.h zj_strIsEqual, zj_strIsEqualLen"),("typed getters","zzzjson.h zj_GetStr*, zj_GetNum*, zj_GetKey*, zj_GetBool, zj_IsNull, zj_Type")],
 observe=["results of all query functions"])
p("C04","Escaping and unescaping are lossless",
 "Unescaped reads of a string or key yield exactly the UTF-8 text the JSON string denotes: every two-character escape, every \\uXXXX in either hex case and every surrogate pair decoded, all other bytes copied. Setting a string or key through the escaping setters succeeds for every byte sequence and stores a valid JSON string that denotes exactly those bytes, so the unescaped read returns them; the length-delimited escaping setters do so for embedded NUL bytes too.",
 ["inputs"],"all byte strings, all legal JSON strings, as values and as keys",
 "Tests cover a handful of escapes; the space is all 65536 code units, all surrogate pairs and all 256 byte values in all positions.",
 [H],[("decoder","zzzjson.h zj_unEscapeStr, zj_addUTF8, zj_consumeHexForUnEscape"),("escape table and writers","zzzjson.h zj_escapeChars, zj_escapeStr, zj_escapeStrLen")],
 observe=["GetUnEscapeStr/GetUnEscapeKey/GetStr/GetKey/Stringify results"])
p("C05","Numbers convert exactly",
 "Reading a number as double yields the IEEE double nearest to the decimal text whatever its length (overflow gives infinity), and reading an integer literal that fits int, long or long long yields exactly that integer, using only the number's own characters. Setting a finite double, int, long or long long stores a valid JSON number that reads back as exactly the same value (same bits, negative zero included). Setting a non-finite double is refused and changes nothing.",
 ["inputs"],"all JSON number texts of any length in any position of a document or buffer; all 2^64 double bit patterns and all integers",
 "The double tests use 66 fixed texts; neighbours in memory, long texts, extreme magnitudes and rounding ties are not sampled.",
 [H],[("text to number","zzzjson.h zj_strToInt/Long/LongLong/Double"),("number to text","zzzjson.h zj_intToStr, zj_longToStr, zj_longLongToStr, zj_doubleToStr")],
 observe=["GetNum/GetDouble/GetInt/GetLong/GetLongLong/GetNumStr results"])
p("C06","Setters accept exactly legal JSON strings, keys and numbers",
 "The string and key setters succeed exactly when their argument is legal between JSON quotes (same rules as parsing), and the number-text setters exactly when it is one complete JSON number; on success the value reads back and serializes verbatim. Length-delimited variants judge and store exactly the given bytes, whatever follows them, and refuse an embedded NUL. Fast, copying, NUL-terminated and length-delimited variants agree.",
 ["inputs"],"all byte strings and lengths, on empty and used values, on members, elements and roots",
 "Tests try a few legal and illegal arguments; one wrong bound in a code-point or digit range is visible only on specific bytes.",
 [H],[("string validator","zzzjson.h zj_checkStr, zj_checkStrLen"),("number validator","zzzjson.h zj_checkNum, zj_checkNumLen"),("setters","zzzjson.h zj_SetStr*, zj_SetKey*, zj_SetNumStr*")],
 observe=["return values and read-back of SetStr*/SetKey*/SetNumStr*"])
p("C07","A refused operation changes nothing",
 "When any operation reports failure (a parse of an invalid text, a setter given an illegal argument, adding to a non-container or adding an empty or key-less value, keying an array element, deleting or looking up something absent, copying or moving an empty value), every value of every document, including both operands, keeps exactly the content, key and position it had before. The values stay fully usable: later operations behave as if the refused one had never been issued.",
 ["inputs","histories"],"all reachable document states and all failing calls, at every error position of a text",
 "Tests check return codes of failing calls, hardly ever the state afterwards, and never at each of the many error exits of the parser.",
 [H],[("restore-on-error at each parser exit","zzzjson.h zj_ParseFast"),("argument checks before mutation","zzzjson.h zj_ObjAddFast, zj_ArrayAddFast, zj_SetFast, zj_SetKey*")],
 observe=["full re-read of all values after the failing call"])
p("C08","Any edit history yields the tree that an abstract document model predicts",
 "After any sequence of edits (set scalar/array/object, set key, set and add by copy or by move, array and object deletion, move out, parse into an existing value) on values at any position, every live value reads, iterates, counts, looks up and serializes as the ordered-tree model of those edits says. Values moved out remain usable and can be inserted elsewhere, appends always go to the end, and emptied containers can be refilled.",
 ["histories"],"all finite histories of API calls that do not insert a value under itself and do not use handles to values whose container was overwritten",
 "Unit tests run each editing function in short fixed scripts; sibling/parent/tail links go wrong only for particular orders of operations (remove last then append, remove middle then its neighbour, re-add after move).",
 [H],[("doubly linked children with parent and tail pointers","zzzjson.h struct zj_node, zj_Move, zj_ArrayAdd*, zj_ObjAdd*, zj_Set, zj_SetFast, zj_ArrayDel, zj_ObjDel")],
 observe=["all query functions and Stringify after each edit"])
p("C09","Copies are deep and independent",
 "Copy, Set, ArrayAdd and ObjAdd produce a value equal to the source (key included for Copy) that shares nothing with it: no later edit of the source or of the copy, at any depth, is visible through the other. The copying forms leave the source unchanged and may copy a value into its own container or descendant. When source and destination use different allocators, the copy survives release of the source's allocator.",
 ["histories","inputs"],"all documents copied, all subsequent edit sequences on either side, all allocator pairings and release orders",
 "Tests copy small documents once and compare; aliasing shows only when a shared link is later edited, or when the source's allocator has been released.",
 [H],[("iterative deep copy","zzzjson.h zj_ValueCopyFrom, zj_Copy"),("copying insertion","zzzjson.h zj_Set, zj_ArrayAdd, zj_ObjAdd")],
 observe=["reads of both sides after edits and releases"])
p("C10","Copying calls keep no reference to caller memory; no call writes to it",
 "After a copying parse or setter (or an escaping setter, or a lookup by key) returns, the caller may overwrite or free the buffers it passed without any effect on the document. Fast variants may refer to the caller's buffer but never modify it, and no call reads a length-delimited buffer outside its given bytes or a NUL-terminated one beyond its terminator.",
 ["inputs","histories"],"all texts and lengths, buffers ending at an unmapped page, later reads, copies and serializations",
 "Tests pass string literals that live forever and are followed by readable memory, so a retained pointer or an over-read is invisible to them.",
 [H],[("copy into the allocator before use","zzzjson.h zj_ParseLen, zj_SetStr, zj_SetStrLen, zj_SetKey, zj_SetKeyLen, zj_SetNumStr, zj_SetNumStrLen, zj_escapeStr*")],
 observe=["documents after the buffers were scribbled/freed; the buffers themselves"])
p("C11","No API use causes a memory error or undefined behaviour",
 "For every input text, valid or hostile, and every API history within the documented contract, the library performs no out-of-bounds or use-after-free access, no read of uninitialised memory that influences results, no signed overflow or invalid shift or null dereference, and always terminates. This includes bounds between neighbouring blocks carved from one allocator.",
 ["inputs","histories"],"all byte strings as texts, keys, strings and numbers; all call histories; all sizes around allocator block boundaries",
 "The suite runs uninstrumented at -O0 on benign inputs; over-reads of a few bytes and overlaps inside the arena produce correct-looking results.",
 [H,"zzzjson.hpp"],[("arena allocator","zzzjson.h zj_allocatorAlloc, zj_allocatorAppendChild"),("growing strings","zzzjson.h zj_appendStr, zj_appendChar"),("sizes computed ahead of writing","zzzjson.h zj_escapeStr*, zj_unEscapeStr, zj_ValueCopyFrom")],
 observe=["ASan/UBSan/MSan reports; guard pages"],hook="red zones between arena blocks (allocation size and address hook)")
p("C12","Releasing an allocator frees everything it obtained, exactly once",
 "Between creating and releasing an allocator, every block the library obtains from the system is released exactly once, by the end of that release at the latest; releasing an allocator never frees or alters memory belonging to another one. Documents held by other allocators stay fully usable, in whatever order allocators are created and released. In the counting memory mode the library's counters give exactly the blocks and bytes obtained and the blocks freed; in the custom mode only the user's functions are called.",
 ["histories"],"all call histories over any number of allocators, any sizes, any release order",
 "A few tests compare allocation counters after fixed scripts; growth into many blocks and interleaved allocators are not explored.",
 [H],[("linked list of blocks freed on release","zzzjson.h zj_NewAllocator, zj_ReleaseAllocator, zj_allocatorAppendChild")],
 observe=["allocation and release calls of the library; LeakSanitizer"])
p("C13","Returned pointers and values stay valid and unchanged until release",
 "Every text, number, boolean, type and value handle returned by the library remains readable with the same content until its allocator is released (a fast read of text that a fast call left in the caller's buffer: as long as that buffer is kept, too), whatever other calls are made in between, including further reads, serializations, failing calls, and edits or deletion of the value it came from. Two results never overlap or overwrite one another or any document content.",
 ["histories"],"all histories of reads and edits with all earlier results retained",
 "Tests consume each result immediately; overwriting needs a later call that happens to reuse or overlap the memory.",
 [H],[("arena never reuses memory before release","zzzjson.h zj_allocatorAlloc"),("fresh block for each result","zzzjson.h zj_GetStr, zj_GetKey, zj_GetNumStr, zj_GetDouble, zj_Stringify")],
 observe=["re-reading every retained pointer"])
p("C14","Threads using separate allocators do not interfere",
 "Any number of threads may use the library at the same time without locks provided each allocator (with its values) is used by one thread at a time; results are the same as when each thread's calls run alone, and there is no data race on any shared state inside the library. Input texts may be shared between threads.",
 ["schedules","histories"],"all interleavings of threads that each own their allocators, including hand-over of an allocator between threads",
 "The tests are single-threaded.",
 [H],[("no mutable state outside the allocator","zzzjson.h zj_checkStrLen, zj_checkNumLen, zj_GetBool, zj_Type and all other API functions")],
 observe=["ThreadSanitizer reports; per-thread transcripts against single-threaded runs"])
p("C15","Behaviour does not depend on build configuration",
 "The results of every call are the same for every supported setting of the configuration macros (initial block and string sizes, growth factor, size type, memory mode, branch-hint mode, API mode), for C and for C++, with either compiler, at every optimisation level, and whether plain char is signed or unsigned.",
 ["configurations","inputs","histories"],"all macro settings of at least one byte and growth factor of at least two, gcc and clang, C and C++, -O0 to -O3, all workloads",
 "The suite builds one configuration at -O0 in C++11.",
 [H],[("configuration macros","zzzjson.h zj_DELTA, zj_ALLOCATOR_INIT_MEMSIZE, zj_STRING_INIT_MEMSIZE, zj_SIZE_TYPE, zj_MEMORY_MODE, zj_EXPECT_MODE, zj_API_MODE, zj_CPLUSPLUS")],
 observe=["transcripts of identical workloads in every configuration"])
p("C16","All API flavours are equivalent",
 "The long C names, the short names, the C++ namespace functions, the C++ member functions and the C++ wrapper classes give the same results, the same documents and the same texts for the same sequence of calls with the same arguments. The headers may be included in several translation units of one program, and functions of different flavours (wrapper classes aside) may be mixed on the same values. Wrapper objects obtained from queries follow the same lifetime rules, and destroying a C++ allocator releases everything it obtained.",
 ["inputs","histories"],"every function of every flavour, all arguments and histories",
 "Function tests use one flavour; many forwarding functions of the others are never called.",
 [H,"zzzjson.hpp"],[("forwarders","zzzjson.h short API functions and zj_Value/zj_Allocator members; zzzjson.hpp classes Allocator and Value")],
 observe=["transcripts of identical workloads through every flavour"])
p("C17","The Go binding agrees with the C library and leaks nothing",
 "Every exported Go function returns what the corresponding C operation returns for the same (NUL-free) text, key, index or value, with absent results as nil and texts passed through byte-for-byte. After the allocator is released no memory obtained by the binding remains allocated, Go strings passed in are never retained or modified, and the strings, booleans and types returned are the caller's own: they read the same after any later call, the release of the allocator included.",
 ["inputs","histories"],"all Go strings without NUL bytes, all call histories",
 "No test compiles the binding.",
 ["zzzjson.go",H],[("cgo forwarders","zzzjson.go")],
 observe=["results of all exported functions against a Go-side model; AddressSanitizer/LeakSanitizer"])
p("C18","The beta header parses, reads, copies and serializes correctly",
 "With the beta header, parsing accepts exactly the valid JSON texts (length-delimited parsing considering only the given bytes), stringifying returns the compact text verbatim, and type, size, iteration, indexed and keyed access, key, string, number, boolean and null queries on a parsed document and on a copy of it report what the text says. These operations perform no out-of-bounds, use-after-free or uninitialised access and releasing the allocator frees everything.",
 ["inputs"],"all NUL-free byte strings, all nodes of parsed documents",
 "Only five benchmark files are parsed and serialized with the beta header.",
 ["beta/zzzjson_beta.h"],[("parser, serializer and queries of the beta header","beta/zzzjson_beta.h z_ValueParseFast, z_ValueStringify, z_ValueCopy, z_ValueGet*")],
 observe=["results of the beta API against a reference parser; ASan/UBSan"])
p("C19","Depth and size are limited only by memory",
 "Parsing, serializing, copying, editing and iterating work for documents of any nesting depth with a small fixed call stack, and take time that grows linearly with the document (setters and lookups: with their argument). Memory held from the system grows at most linearly with the data processed, in a number of blocks that grows only logarithmically.",
 ["inputs","histories"],"documents up to millions of levels or elements, long edit histories",
 "Tests use shallow small documents apart from the benchmark files.",
 [H],[("iterative traversals using parent links","zzzjson.h zj_ParseFast, zj_Stringify, zj_ValueCopyFrom"),("geometric growth","zzzjson.h zj_allocatorAlloc, zj_appendStr")],
 observe=["completion on a 96 KiB stack; system allocation calls and bytes; operation counts"])
B="beta/zzzjson_beta.h"
p("C20","The beta header edits documents like an ordered tree",
 "With the beta header, the string, key and number setters accept exactly legal JSON string contents and numbers (length-delimited forms considering only the given bytes; SetNum refuses NaN and infinities and otherwise stores a number that reads back as the same double), and after any sequence of parse, set, key, copy, move, add and delete calls, through whichever handles, every live value reads, navigates and serializes as an ordered tree on which the same edits were made. A refused call changes nothing. Set and SetFast replace the content of a non-empty value and keep its place (taking over the source's key only when both have one). Copy, Set, ObjAdd and ArrayAdd make independent deep copies, owned by the destination's allocator; the Fast forms move the value and leave its handle empty. Copying setters and parses never refer to the caller's text afterwards. The short names do the same as the long ones.",
 ["inputs","histories"],"all NUL-free argument strings and all sequences of calls on values of one or more allocators, except moving a value into itself or its own descendant",
 "No test edits anything with the beta header.",
 [B],[("setters and legality checks","beta/zzzjson_beta.h z_ValueSet*, z_CheckStr, z_CheckNum"),("sibling/parent/tail link maintenance","beta/zzzjson_beta.h z_ValueMove, z_ValueObjAdd*, z_ValueArrayAdd*, z_ValueSet, z_ValueSetFast"),("deep copy","beta/zzzjson_beta.h z_ValueCopyFrom")],
 observe=["results of all calls of the beta API against a tree model after every edit"])
p("C21","The beta header's memory, thread and resource guarantees",
 "With the beta header, every returned text, number, boolean, type and value handle stays readable and unchanged until its allocator is released (a fast read of text left in the caller's buffer: as long as that buffer is kept, too), whatever other calls are made. Every block obtained from the system is freed exactly once, by the release of its allocator at the latest, and releasing an allocator leaves documents of other allocators usable. No call reads or writes out of bounds, reads uninitialised or freed memory, or has undefined behaviour. Threads that use different allocators never interfere. Documents of any depth are handled with a small fixed call stack, in time and memory that grow linearly with the data, whatever the configured initial sizes.",
 ["inputs","histories","schedules","configurations"],"all call sequences over any number of allocators and threads, all documents, all values of the memory macros",
 "No test looks at the memory of the beta header, runs it in threads or on deep documents.",
 [B],[("arena allocator and growing string","beta/zzzjson_beta.h z_AllocatorAlloc, z_AllocatorRelease, z_StringAppendStr"),("iterative traversals","beta/zzzjson_beta.h z_ValueParseFast, z_ValueStringify, z_ValueCopyFrom")],
 observe=["system allocations and frees, arena red zones, sanitizer reports, retained results, steps counted"],hook="zj_VERIF_HOOKS in z_AllocatorAlloc")
p("C22","The beta header does not depend on its build configuration",
 "With the beta header, the results of every call are the same for every supported setting of its configuration macros (initial block and string sizes, growth factor, memory mode, branch-hint mode), with either compiler, at every optimisation level, whether plain char is signed or unsigned, and when it is included in several translation units of one program. In its counting memory mode the counters give exactly the blocks and bytes obtained and the blocks freed; in the custom mode only the user's functions are called.",
 ["configurations","inputs","histories"],"all macro settings of at least one byte and growth factor of at least two, gcc and clang, -O0 to -O3, all workloads",
 "The beta header is built in one configuration for five benchmark files.",
 [B],[("configuration macros","beta/zzzjson_beta.h z_DELTA, z_ALLOCATORINITMEMSIZE, z_STRINGINITMEMSIZE, z_MEMORY_MODE, z_EXPECT_MODE, z_New, z_Free")],
 observe=["transcripts of identical workloads in every configuration; allocation counters"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['title']
