#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=s) for s in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","A modifiable tuple behaves as the map its history of writes describes",
"After any sequence of set, insert and erase calls through the C++ API on a modifiable tuple (fields declared by a schema or addressed by number; every value type; pre-placed, loose and collection fields), reading any field returns exactly the value last written to it, an erased field reads as absent, and no operation on one field changes what any other field reads. Space reclaimed from deleted or replaced values is reused without ever corrupting a live value.",
["histories","inputs"],"all operation histories over all value types, sizes and field placements, including histories that fill the tuple, punch holes and reuse them",
"The existing tests run a handful of scripted short histories; hole reuse, payload relocation and in-place resize depend on the exact interleaving of sizes, deletions and insertions.",
["src/gear.cxx","src/rw.cxx","fast_positive/tuples/details/rw.h","fast_positive/tuples/details/getter.h","fast_positive/tuples/details/field.h"],
["index of loose field descriptors","pre-placed area","payload units","holes and junk counters"],
[("hole reuse for descriptors and payload","src/gear.cxx alloc_loose/alloc_data/release_data/release_loose"),("payload resize and relocation","src/gear.cxx realloc_data"),("typed assignment","fast_positive/tuples/details/rw.h assign_field_value/append_field")],
["get_* accessors of tuple_rw_fixed, tuple_rw_managed and of the taken tuple_ro_weak"])

p("C02","Serialising, validating and re-opening a tuple preserves its content",
"Taking the serialised form of a modifiable tuple, with or without prior optimisation, always yields bytes that the library's own validation accepts and in which every field has the same value, the same presence and the same number of collection elements as before. Re-opening those bytes for reading or for further modification, copying them to another address and converting back and forth any number of times changes nothing, and a tuple created or re-opened for modification has the room that was asked for.",
["histories","inputs"],"all tuples reachable by edits, and all chains of take / copy / re-open / edit / take",
"Tests serialise a few hand-written tuples; relocation of payload while copying, header shrinking and re-creation of hole bookkeeping depend on the history that produced the tuple.",
["src/gear.cxx","src/rw.cxx","src/ro.cxx","src/managed.cxx","src/audit.cxx","fast_positive/tuples/details/ro.h"],
["serialised tuple bytes (header, index, payload)"],
[("take as-is and optimised","src/gear.cxx tuple_rw::take_asis/optimize/take_optimized"),("re-creation from serialised form","src/rw.cxx tuple_rw::create_from_ro/create_from_buffer"),("relocation","src/rw.cxx tuple_rw constructors")],
["tuple_ro_weak / tuple_ro_managed getters on copied bytes","fptu_take/fptu_fetch results"])

p("C03","Structure stays valid and free-space figures are truthful after every edit",
"After every operation on a modifiable tuple, successful or refused, the library's self-check accepts it, occupied plus free space equals the buffer, and the reported amount of reclaimable junk equals what compaction actually recovers. Compaction, index sorting and optimisation keep all content while removing all junk, and an insertion that fits in the reported free index and data space is never refused for lack of space.",
["histories","inputs"],"all operation histories, with the check applied after each single step",
"Bookkeeping errors show only after particular interleavings of deletion, resize and growth; unit tests check the counters for a few fixed sequences.",
["src/gear.cxx","src/rw.cxx","src/audit.cxx","src/compat_rw.cxx","fast_positive/tuples/details/rw.h"],
["head/tail/pivot/end positions","junk count and volume","holes chain"],
[("compaction and defragmentation","src/gear.cxx compactify/optimize"),("index sorting","src/gear.cxx sort"),("hole accounting","src/gear.cxx release_data/release_loose/merge of holes"),("self-check","src/audit.cxx")],
["validity check, head/tail space, junk, netto and brutto sizes, free-space queries of the C API"])

p("C04","A refused modification leaves the tuple exactly as it was",
"When a modification is refused for any reason (not enough space, value out of range, wrong type, value too long, absent field, misuse of a collection), the caller gets an error, the tuple still passes validation, and every field keeps the value it had before the call. The tuple stays fully usable afterwards.",
["histories","fault_sequences","inputs"],"all histories over small buffers with refusals at every step, and every kind of invalid argument",
"Out-of-space can strike between the internal steps of any operation at any fill level; tests only exercise a few refusals on nearly empty tuples.",
["src/gear.cxx","src/rw.cxx","src/compat_rw.cxx","src/autogrowth.cxx","fast_positive/tuples/details/rw.h","src/except.cxx"],
["tuple content and bookkeeping around the throw"],
[("space reservation before mutation","src/gear.cxx alloc_loose/alloc_data/realloc_data"),("argument checks before mutation","fast_positive/tuples/details/rw.h"),("exception to error code mapping","src/except.cxx, src/compat_rw.cxx")],
["exception / error code, followed by full read-back"])

p("C05","Arbitrary bytes never break the reader: validation is safe and sufficient",
"For any byte sequence of any length at any (unit-aligned) address, validating it as a tuple terminates without reading outside the given bytes, and if it is accepted then reading, searching, iterating over, copying and converting it to modifiable form never reads or writes outside its memory. A modifiable tuple obtained from accepted bytes can be edited like any other.",
["inputs"],"all byte sequences, with or without a schema, including near-valid mutations of real tuples",
"Hand-written malformed examples cover a few header fields; the space of corrupted descriptors, offsets and lengths is astronomically larger.",
["src/audit.cxx","src/ro.cxx","src/compat_ro.cxx","fast_positive/tuples/details/ro.h","fast_positive/tuples/details/field.h"],
["untrusted serialised bytes"],
[("structural audit","src/audit.cxx tuple_ro audit"),("readers over audited bytes","src/ro.cxx, src/compat_ro.cxx, fast_positive/tuples/details/getter.h")],
["fptu_check_ro_ex, tuple_ro_weak construction, all readers, under AddressSanitizer and UBSan"])

p("C06","Validation accepts exactly the well-formed tuples",
"Validation rejects every serialised tuple whose declared size disagrees with the buffer, whose index does not fit, or in which a field's payload lies wholly or partly outside the data area, overlaps another field's payload or has an impossible length, or whose data area has space that belongs to no field or hole, and it reports a false sorted-index or pre-placed claim. It accepts every tuple that is well formed by those rules, including all those the library itself produces.",
["inputs"],"all well-formed tuples and all single- and multi-fault corruptions of them",
"A finite list of malformed tuples cannot cover combinations of descriptor type, offset, length and neighbouring payload.",
["src/audit.cxx","fast_positive/tuples/details/audit.h","fast_positive/tuples/details/field.h","src/compat_ro.cxx"],
["header, index descriptors, payload sizes"],
[("payload map and holes detection","src/audit.cxx"),("check entry points","src/compat_ro.cxx fptu_check_ro_ex, src/managed.cxx")],
["verdict of the checkers compared with an independent reference validator"])

p("C07","Null, absent and default values follow the documented field rules",
"For every type and field kind the documented rules hold: a field declared with a distinguishable null reports absence when never written, when erased or when the designated null value was written to a pre-placed slot, and a plain read of it then fails as absent; a field without a distinguishable null reads the type's zero or empty value when absent, and writing that value removes a loose field. Presence queries, reads, erasure and re-serialisation always agree with each other.",
["inputs","histories"],"all types x placement x null-flag combinations, all values including each type's designated null, all orders of set and erase",
"The rule table has hundreds of type/placement/flag combinations with boundary values; the tests touch a few of them.",
["fast_positive/tuples/token.h","fast_positive/tuples/details/getter.h","fast_positive/tuples/details/meta.h","fast_positive/tuples/details/rw.h","fast_positive/tuples/details/field.h","src/schema.cxx"],
["pre-placed slots and their initial image","presence of loose descriptors"],
[("designated null detection","fast_positive/tuples/details/meta.h is_denil"),("null-aware getters","fast_positive/tuples/details/getter.h"),("null-aware setters","fast_positive/tuples/details/rw.h"),("initial image","src/schema.cxx")],
["is_present, get_*, erase, collections on rw and ro forms"])

p("C08","Integers are stored and read exactly or refused, never silently altered",
"Writing an integer into any numeric field either stores a value that reads back equal to what was written, or fails with an out-of-range or type error leaving the field unchanged; it never wraps, changes sign or drops high bits. Reading an integer field through a wider or narrower numeric type returns the same mathematical value or fails with an error. Writing a floating-point number stores it exactly where the field can hold it, and a number outside the field's range (or not-a-number for an integer field) is refused.",
["inputs"],"all source types x destination field types x values, in particular around each type's bounds and not-a-number",
"There are thousands of (source type, target type, boundary) combinations per flag; tests sample a few constants.",
["fast_positive/tuples/details/rw.h","fast_positive/tuples/details/getter.h","src/rw.cxx","src/ro.cxx","fast_positive/tuples/details/meta.h"],
["value bits of numeric fields"],
[("range-checked generic setters","fast_positive/tuples/details/rw.h set_integer/set_unsigned/set_float"),("generic getters","fast_positive/tuples/details/getter.h get_integer/get_unsigned/get_float")],
["getter result or exception type"])

p("C09","Field lookup finds the first match, whatever CPU-specific code is used",
"Searching the index of fields returns the first descriptor with the requested number and type, or nothing when there is none, for any index content, length and memory alignment, and all the implementations selected by CPU features give identical answers to a plain linear search. No implementation touches memory pages that the index does not occupy.",
["inputs","configurations"],"all index contents and lengths, start alignments, target positions and available CPU variants",
"Vectorised tails, alignment prologues and multi-match order depend on length modulo the vector width and on position; tests use a few sizes.",
["src/scan_portable.cxx","src/scan_SSE2.cxx","src/scan_AVX.cxx","src/scan_AVX2.cxx","src/scan_ifunc.cxx","src/cpu_features_ia32.cxx","fast_positive/tuples/details/scan.h"],
["array of 32-bit descriptors"],
[("vectorised scans","src/scan_*.cxx"),("runtime dispatch","src/scan_ifunc.cxx")],
["returned pointer compared with naive search, over guarded memory"])

p("C10","A schema is a consistent dictionary of uniquely named, non-overlapping fields",
"For any accepted sequence of definitions every defined name resolves to its own token and back, different names have different tokens, pre-placed fields do not overlap (except a field inside of a declared opaque block), are suitably placed and ordered by offset, and lookups by offset, by number and by neighbour agree with the list of all definitions. Duplicate names and over-long names are refused and leave the schema unchanged, and a tuple created for the schema starts with every field at its declared initial value or absent.",
["histories","inputs"],"all sequences of valid and invalid definitions of all types and names",
"The dictionary is kept in sorted side tables whose consistency depends on definition order, name ordering and offsets; tests define a couple of fields.",
["src/schema.cxx","fast_positive/tuples/schema.h","fast_positive/tuples/token.h"],
["token list, name dictionary, initial image"],
[("definition","src/schema.cxx define_*"),("lookup","src/schema.cxx get_token/get_name/by_offset/by_loose")],
["tokens returned by the lookups; values of a fresh tuple"])

p("C11","Iteration visits every present field once; collections keep their elements",
"Iterating over a tuple, over all loose fields or over the elements of one collection or repeated field visits every present matching element exactly once and no absent one, on modifiable and serialised forms alike. Appending to and deleting from a collection, including deleting one element or a range obtained by iterating, leaves exactly the elements the caller expects with their values intact; the order of elements within a collection is not promised (slots of deleted elements are recognisable by their type and are not elements).",
["histories","inputs"],"all tuples with mixes of types and numbers, all filters, all insert/erase histories on collections",
"Skipping or repeating elements depends on neighbours, deleted slots and position of the match; tests iterate over a few fixed layouts.",
["src/ro.cxx","src/rw.cxx","src/compat_ro.cxx","fast_positive/tuples/details/ro.h","fast_positive/tuples/details/rw.h","src/compat_common.cxx"],
["index of loose descriptors including deleted slots"],
[("collection iterators","fast_positive/tuples/details/ro.h, rw.h collection_*"),("filtered iteration","src/compat_ro.cxx fptu_first/fptu_next")],
["sequences produced by the iterators"])

p("C12","Self-growing tuples never run out of space below the format limit",
"A self-growing modifiable tuple behaves exactly like an unlimited one: any write succeeds without manual space handling as long as the content together with the new value fits the format's maximum size, existing content survives every growth step, and exceeding the format limits is reported as an error without loss of content. Values of any permitted length up to the limit are stored intact.",
["histories","inputs"],"all histories of writes and deletions that force zero or more growth steps, from any initial capacity",
"Growth happens at content-dependent moments and moves the whole tuple in the middle of an operation; tests trigger it in two fixed patterns.",
["src/autogrowth.cxx","src/managed.cxx","fast_positive/tuples.h","src/1Hippeus/buffer.cxx"],
["owned buffer being replaced","pending operation being retried"],
[("space deficit handling","src/autogrowth.cxx"),("managed wrapper","fast_positive/tuples.h tuple_rw_managed")],
["values read back after every operation; exceptions at the format limit"])

p("C13","The C API edits and reads tuples exactly as documented",
"Through the C functions, upsert replaces or creates, insert adds another element, update succeeds only when the field exists, erase removes matching fields and returns their count, and the lookup, get and field-reader functions return exactly the stored values or the documented no-field error, for every field type, any field number and any history. Every call reports success or the documented error code, and buffer-size, free-space and junk-space queries agree with what is actually stored.",
["histories","inputs"],"all histories of C API calls over all field types, numbers and values",
"Tests walk fixed scenarios per function; the replace-with-different-size, out-of-space and mixed-type interleavings are unbounded.",
["src/compat_rw.cxx","src/compat_ro.cxx","src/compat_field.cxx","src/compat_common.cxx","fast_positive/tuples/legacy.h"],
["modifiable tuple in a caller-supplied buffer"],
[("upsert/insert/update","src/compat_rw.cxx"),("readers","src/compat_ro.cxx, src/compat_field.cxx"),("error mapping","src/except.cxx")],
["return codes and values vs. a reference multimap"])

p("C14","Date-time conversions round-trip and print the right calendar moment",
"Converting a point in time between the library's fixed-point form and seconds, milliseconds, microseconds, nanoseconds, 100-ns ticks or system time structures and back returns the original value to within the unit's resolution, is monotonic and never yields a fraction outside one second. The printed form denotes the same UTC moment, with correct calendar date and carry, for every representable value.",
["inputs"],"all 64-bit time values and all sub-second values in each unit",
"Rounding and carry errors occur at isolated values of a 2^32 fraction range; tests check a few constants.",
["fast_positive/tuples/types/datetime.h","src/time.cxx","src/misc.cxx","src/debug.cxx"],
["64-bit fixed-point time"],
[("fraction conversions","fast_positive/tuples/types/datetime.h"),("formatting","src/debug.cxx to_string(datetime)")],
["converted values; printed text parsed independently"])

p("C15","Integers are printed exactly and within the documented buffer",
"For every signed and unsigned 32- and 64-bit integer the text produced is precisely its canonical decimal form, the returned end pointer delimits it, and nothing beyond the documented maximal length is written.",
["inputs"],"all 32-bit and 64-bit values, all digit counts and boundary values",
"Digit-pair table and length-dispatch errors hit only particular magnitudes or digits; the tests sample a subset.",
["fast_positive/erthink/erthink_u2a.h","src/tablets.cxx"],
["output character buffer"],
[("branch-by-magnitude digit printing","fast_positive/erthink/erthink_u2a.h")],
["bytes written, compared with an independent conversion"])

p("C16","Floating-point text reads back to the same double",
"For every finite double the text produced parses back to the bit-identical value (sign of zero included), is never longer than the documented maximal length and nothing is written beyond it; infinities and not-a-number print as the documented words. The accurate form produces at most 17 significant digits, and the shortest such decimal for nearly all values.",
["inputs"],"all 2^64 double bit patterns: normals, subnormals, powers of two and ten, neighbours of boundaries",
"Rounding errors in the shortest-digits search hit isolated inputs among 2^64; tests check fixed and random samples of one shape.",
["fast_positive/erthink/erthink_d2a.h"],
["output character buffer"],
[("grisu-style digit generation with cached powers","fast_positive/erthink/erthink_d2a.h")],
["text parsed by strtod and compared bit for bit"])

p("C17","Low-level bit, byte-order, carry and wide-multiply operations are exact",
"Byte swapping and byte-order conversion, leading-zero count, 64- and 128-bit addition with carry, 64x64 to 128 multiplication and branch-free absolute value return the mathematically exact result for every operand, and the stack arena allocator hands out correctly aligned, non-overlapping blocks and falls back to the heap when exhausted.",
["inputs","histories"],"all operand values (boundary-biased), all allocation/deallocation histories of the arena",
"The tests check a small table of constants per operation.",
["fast_positive/erthink/erthink_bswap.h","fast_positive/erthink/erthink_endian.h","fast_positive/erthink/erthink_byteorder.h","fast_positive/erthink/erthink_clz.h","fast_positive/erthink/erthink_carryadd.h","fast_positive/erthink/erthink_mul.h","fast_positive/erthink/erthink_misc.h","fast_positive/erthink/erthink_short_alloc.h"],
["machine words","arena cursor"],
[("portable and intrinsic variants","fast_positive/erthink/*.h"),("arena allocator","fast_positive/erthink/erthink_short_alloc.h")],
["results vs. 128-bit reference arithmetic"])

p("C18","Shared tuples are immutable, and memory is owned exactly once",
"Copying, moving, assigning, swapping, cloning and destroying managed tuples in any order keeps every surviving handle's content intact: editing or destroying one handle never changes what another handle reads, and moved-from handles are empty or valid. Each buffer is released exactly once, after its last user, with no leak and no use after release, also when handles of one buffer are used from several threads and when an allocation fails. A tuple made by default or by a scale has the default schema and allocator and the promised room.",
["histories","inputs"],"all sequences of handle operations over a pool of read-only and modifiable managed tuples and nested views",
"Ownership errors need particular sequences of sharing and moving; tests perform a few linear ones.",
["src/managed.cxx","fast_positive/tuples.h","fast_positive/tuples/1Hippeus/buffer.h","src/1Hippeus/buffer.cxx","src/rw.cxx"],
["reference counts, buffer ownership flags"],
[("reference counting","fast_positive/tuples/1Hippeus/buffer.h, src/1Hippeus/buffer.cxx"),("copy-on-write of shared buffers","src/managed.cxx")],
["content of every live handle after each step; allocation balance under AddressSanitizer"])

p("C19","Comparison helpers give a consistent and correct order",
"Comparing binary values and field values with raw data yields less, equal or greater exactly as byte-wise lexicographic comparison does, a missing or wrongly typed field is reported as incomparable (a missing opaque field equals an empty value), and the result is antisymmetric and transitive. String views are equal exactly when their bytes are, and their order is total. Comparisons never modify or read outside their operands.",
["inputs"],"all pairs of byte strings including prefixes and embedded zeros, all field types",
"The tests compare a few fixed pairs; prefix and sign-of-byte errors need particular pairs.",
["src/compat_common.cxx","src/compat_ro.cxx","src/misc.cxx","fast_positive/tuples/string_view.h","fast_positive/tuples/legacy.h"],
["operand bytes"],
[("lexicographic comparison","fptu_cmp_binary, fptu_cmp_opaque, fptu_cmp_96..256"),("string view ordering","fast_positive/tuples/string_view.h")],
["comparison result codes"])

p("C20","Tokens describe fields faithfully; static and run-time tokens are equivalent",
"A token reports exactly the kind, type, id or offset, size and flags it was made of, and impossible parameters are refused. Two tokens are the same field precisely when they address the same kind, type and id or offset whatever their null and saturation flags, and their order is strict and total: pre-placed before loose, pre-placed by offset, loose by id. A token derived at compile time from a structure laid over the pre-placed area describes exactly the bytes of that member, so no two members overlap. Reading, writing and erasing through a compile-time token does exactly what the equal run-time token does and changes no other field.",
["inputs","histories"],"all combinations of token parameters and flags; all sequences of operations addressed alternately by compile-time and run-time tokens of each type",
"Each of the many type/kind/flag combinations is a separate instantiation; tests use a few of them, with single operations.",
["fast_positive/tuples/token.h","fast_positive/tuples/essentials.h","fast_positive/tuples/details/rw.h","fast_positive/tuples/details/getter.h","fast_positive/tuples/details/meta.h","fast_positive/tuples/details/type2genus.h","fast_positive/tuples/details/field.h"],
["token bit layout","pre-placed area laid out as a structure"],
[("packed tag of a token","fast_positive/tuples/essentials.h, fast_positive/tuples/token.h"),("accessors for static tokens","fast_positive/tuples/details/rw.h, details/getter.h")],
["token attributes; whole content of the tuple after each operation through each kind of token"])

p("C21","Views, printed bytes, memory probes and guards cover exactly the given bytes",
"A string view behaves as the text it was made of: length, characters, iteration, conversions and swap agree with it, an index beyond the end is refused by at(), a nil view is distinct from an empty one, the order is by length and then by bytes, and equal views have equal hashes. Hexadecimal text shows every byte exactly; format() yields the whole text whatever its length. The memory helpers of the buffer layer work on exactly the given range at any address and length: is_zeroed() sees any set bit inside and ignores everything outside, pollute() changes nothing outside and restores the original when repeated with the same mask, probing changes nothing. A guard word is intact right after its set-up, and damage to it, or a foreign signature, is detected.",
["inputs"],"all texts, all address/length/mask combinations, all damage patterns of a guard word",
"The number of combinations of alignment, length and content is large; tests use a few aligned samples.",
["fast_positive/tuples/string_view.h","src/misc.cxx","src/1Hippeus/utils.cxx","src/1Hippeus/hipagut.cxx","fast_positive/tuples/1Hippeus/hipagut.h"],
["little-endian words"],
[("string_view","fast_positive/tuples/string_view.h"),("pollute, is_zeroed, log2size","src/1Hippeus/utils.cxx"),("hipagut guards","src/1Hippeus/hipagut.cxx")],
["results of views, printing and probing; bytes inside and around the range"])

p("C22","Serialised bytes depend only on the edits, never on earlier memory content",
"The serialised form of a tuple, taken as is or compacted, directly or through clones, growth, reset and re-opening, is determined by the schema and the sequence of edits alone: the same edits give the same bytes whatever the memory used for the tuple held before. In particular padding after values and after the pre-placed fields never carries garbage or foreign data out of the process, and the same edit is accepted or refused alike.",
["histories","inputs"],"all schemas, all sequences of edits, all prior contents of memory",
"Tests never compare images made in differently filled memory; fresh pages are zero, so garbage in padding does not show.",
["fast_positive/tuples/details/field.h","fast_positive/tuples/details/rw.h","src/rw.cxx","src/gear.cxx","src/autogrowth.cxx"],
["padding bytes of values and of the pre-placed area"],
[("padding of stretchy values","fast_positive/tuples/details/field.h stretchy_value_*::store"),("initial pre-placed area","src/rw.cxx tuple_rw::reset, fast_positive/tuples/details/rw.h tuple_rw constructor"),("allocation of loose fields","src/gear.cxx alloc_loose/realloc_loose")],
["bytes of tuple_ro_weak / tuple_ro_managed taken from two tuples edited alike"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
