#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe), "hook_needed": None}})

H, I, C, F, PR = "histories", "inputs", "configurations", "fault_sequences", "programs"

prop("C01", "The bounded queue is an exact FIFO over every history",
 "For every capacity, element size and history of operations, the queue behaves as a bounded first-in first-out list: an insertion succeeds exactly when fewer than capacity elements are held, a removal succeeds exactly when it is not empty and delivers, byte for byte, the oldest element, and looking at the front or the rear delivers the oldest or the newest element and changes nothing. The full and empty answers always agree with the number of elements held, and a refused operation changes neither the queue nor the caller's element.",
 [H, C, I], "all operation histories (insert, remove, front, rear, full, empty, missing arguments), all capacities and element sizes, all element contents",
 "The tests drive one queue through a few inserts and removals with 4-byte elements; wrap-around at every (offset, fill) combination, other element sizes and capacities beyond a handful are never reached.",
 ["Src/queue.c", "Inc/queue.h"],
 [("ring buffer index arithmetic", "Src/queue.c: Queue_enqueue, Queue_dequeue"), ("size/capacity comparison", "Src/queue.c: Queue_full, Queue_empty")],
 [("Queue_t", "ring buffer descriptor", "Inc/queue.h")], ["return value and delivered bytes of every queue call"])
prop("C02", "Priority queue removes the highest priority, oldest first among equals",
 "For every capacity, element size and history, removing from a non-empty priority queue delivers, byte for byte, an element of the numerically highest unsigned 32-bit priority currently held, and among elements of equal priority the one inserted first. The other elements stay, with their own priorities and their order; removal from an empty queue is refused and leaves the caller's element alone.",
 [H, C, I], "all histories of insertions and removals, all capacities and element sizes, all 32-bit priorities",
 "The tests use a handful of small distinct priorities; ties, priorities at 2^8, 2^16, 2^31 and 2^32-1, removal from every position and long histories are not reached.",
 ["Src/priority_queue.c", "Inc/priority_queue.h"],
 [("linear search for the highest priority", "Src/priority_queue.c: GetHighestPriorityIndex"), ("closing the gap in both arrays", "Src/priority_queue.c: PriorityQueue_dequeue")],
 [("PriorityQueue_t", "parallel arrays of priorities and elements", "Inc/priority_queue.h")], ["delivered elements"])
prop("C03", "A full priority queue only ever gives up its least important element",
 "Inserting into a priority queue that is not full always succeeds and loses nothing. When it is full, an insertion is accepted exactly if the new priority is strictly higher than the lowest priority held; it then evicts exactly one element, the one inserted first among those with the lowest priority, and keeps every other element with its priority and relative order, while a refused insertion changes nothing.",
 [H, C, I], "all histories that fill the queue and go on inserting, all capacities, element sizes and 32-bit priorities",
 "One test overfills one queue; which of several lowest elements goes, what happens to every other position, and refusal on ties are not enumerated.",
 ["Src/priority_queue.c", "Inc/priority_queue.h"],
 [("linear search for the lowest priority", "Src/priority_queue.c: GetLowestPriorityIndex"), ("eviction and append", "Src/priority_queue.c: PriorityQueue_enqueue")],
 [("PriorityQueue_t", "parallel arrays of priorities and elements", "Inc/priority_queue.h")], ["return value of insertions, complete drain afterwards"])
prop("C04", "The map is a bounded dictionary with last-write-wins semantics",
 "For every history, the map holds for each byte string used as a key (compared over its whole length) the bytes last stored for it: a lookup succeeds exactly for stored keys and delivers those bytes, storing under a present key replaces its value even when the map is full, and storing a new key succeeds exactly while fewer than the maximum number of keys are present. A refused insertion or lookup changes neither the map nor the caller's value.",
 [H, C, I], "all histories of insertions and lookups, all key and value sizes and capacities, all key and value bytes (zero bytes included)",
 "The tests insert a few 4-byte keys; keys that differ only in the last byte or after a zero byte, updates of a full map at every position and other sizes are not reached.",
 ["Src/map.c", "Inc/map.h"],
 [("linear key search with memcmp", "Src/map.c: GetIndex"), ("append or replace", "Src/map.c: Map_insert")],
 [("Map_t", "parallel key and value arrays", "Inc/map.h")], ["return value and delivered bytes of every map call"])
prop("C05", "The scheduler runs exactly the active tasks, once each, in table order",
 "Adding a task puts it into the first free slot of the table and succeeds exactly if there is one; initialising makes every given slot free and inactive. One pass over a table calls, in slot order and exactly once each, the tasks whose slot is occupied and active when the pass reaches it, including the effect of changes that earlier tasks of the same pass made to later slots, and calls nothing else.",
 [H, C, PR], "all table sizes, slot contents, histories of init/add/activate/deactivate/remove/run, and all tasks that change the table while it is being run",
 "The tests run one table with two tasks; holes in the table, tables of other sizes and tasks that change the table are not reached.",
 ["Src/scheduler.c", "Inc/scheduler.h"],
 [("first free slot search", "Src/scheduler.c: Scheduler_addTask"), ("dispatch loop", "Src/scheduler.c: Scheduler_run")],
 [("SchedulerTask_t[]", "task table owned by the caller", "Inc/scheduler.h")], ["sequence of task calls"])
SORTS = ["Src/sort/bubble_sort.c", "Src/sort/heap_sort.c", "Src/sort/insertion_sort.c", "Src/sort/selection_sort.c", "Src/utils.c"]
prop("C06", "Every sort returns its elements in order, whole, none lost or duplicated",
 "For each of the four sorts, every number of elements (including none and one), every element size (up to the documented 64 bytes for insertion sort) and every consistent ordering given by the comparison function, the array afterwards holds exactly the same elements, each with all of its bytes intact, arranged so that no element is greater than its successor.",
 [I, C], "all arrays, element sizes, and total preorders expressed by the comparison function, ascending or descending",
 "The tests sort a few arrays of about ten elements per algorithm; all permutations and tie patterns, other element sizes and element counts around 256 are not covered.",
 SORTS, [("the four algorithms", "Src/sort/*.c"), ("byte-wise element exchange", "Src/utils.c: Utils_swapElements")], (), ["contents of the array afterwards"])
prop("C07", "Sorts stay sane under any comparison function",
 "Whatever the comparison function answers, even inconsistently, each sort terminates after a bounded number of comparisons and leaves a permutation of the original elements. Every pointer handed to the comparison function refers to a complete, readable copy of one of the array's elements, and the comparison function is never called for arrays of fewer than two elements.",
 [PR, I, C], "all comparison functions, that is all sequences of answers, over all arrays and element sizes",
 "Tests only ever pass consistent comparison functions that do not check their arguments.",
 SORTS, [("loop bounds of the algorithms", "Src/sort/*.c"), ("bounds checks before comparing", "Src/sort/heap_sort.c: Heapify; Src/sort/insertion_sort.c")], (), ["arguments of every comparison, array afterwards, number of comparisons"])
prop("C08", "Bubble sort and insertion sort keep equal elements in their order",
 "For every array, element size and strict ordering, bubble sort and insertion sort are stable: elements that compare as equal come out in the order in which they stood in the input.",
 [I, C], "all arrays with all tie patterns, all element sizes",
 "The tests compare plain integers, for which equal elements are indistinguishable.",
 ["Src/sort/bubble_sort.c", "Src/sort/insertion_sort.c"], [("strict comparison before moving", "Src/sort/bubble_sort.c, Src/sort/insertion_sort.c")], (), ["order of tagged equal elements"])
prop("C09", "Base64 encoding is exact, terminated and never exceeds its capacity",
 "For every byte string and every result capacity, encoding reports success exactly when the padded standard-alphabet encoding (RFC 4648) plus its terminating zero byte fits the capacity, and then the result is that text and terminator. Nothing outside the given capacity is ever written, also when encoding fails, including a capacity of zero.",
 [I, C], "all byte strings of all lengths, all capacities",
 "A few sample strings with ample or far too small buffers; the capacities just around the needed size and most byte triples are not reached.",
 ["Src/base64.c", "Inc/base64.h"], [("alphabet table and bit regrouping", "Src/base64.c: Base64_encode"), ("running capacity check", "Src/base64.c: Base64_encode")], (), ["return code, text, bytes around the result"])
prop("C10", "Base64 decoding inverts encoding for every payload and capacity",
 "Decoding accepts every non-empty canonical Base64 text, with its padding or with the padding left off and in the standard or the URL-safe alphabet, exactly when the decoded bytes fit the output capacity, and delivers precisely those bytes in order. Empty input is refused, nothing outside the output capacity is written and nothing outside the given input length is read.",
 [I, C], "all payloads of all lengths in all four notations, all capacities",
 "The tests decode a few sample texts; short payloads, unpadded tails, tight capacities and most characters at most positions are not reached.",
 ["Src/base64.c", "Inc/base64.h"], [("reverse table, padding and length computation", "Src/base64.c: Base64_decode")], (), ["return code and decoded bytes"])
CRCF = ["Src/crc/crc8_base.c", "Src/crc/crc16_base.c", "Src/crc/crc32_base.c", "Src/crc/crc8_variants/*.c", "Src/crc/crc16_variants/*.c", "Src/crc/crc32_variants/*.c"]
prop("C11", "Every CRC variant computes its catalogue algorithm for every message",
 "For each of the 45 named CRC-8, CRC-16 and CRC-32 variants and every message of every length, including the empty one, a one-shot computation without a previous value returns the checksum defined by that variant's catalogue parameters (polynomial, initial value, input and output reflection, final exclusive-or).",
 [I, C], "all messages of all lengths for all 45 variants",
 "Each variant is tested with one or two messages, which touch a few of the 256 table entries each.",
 CRCF, [("256-entry tables and per-variant constants", "Src/crc/crc*_variants/*.c"), ("table-driven engine", "Src/crc/crc*_base.c")], (), ["returned checksum"])
prop("C12", "A CRC computed in pieces equals the CRC computed at once",
 "For every variant, every message and every way of cutting it into consecutive pieces, empty pieces included, passing each intermediate result (taken without finalisation where the variant offers the choice) as the previous value of the next piece and finalising the last piece returns the one-shot checksum.",
 [I, H], "all messages, all ways of splitting them, all variants",
 "The tests split one message once for a few variants.",
 CRCF, [("previous-value parameter and final flag", "Src/crc/crc*_variants/*.c")], (), ["returned checksum of the last piece"])
prop("C13", "The generic CRC engines are correct for every polynomial and option",
 "For each width (8, 16, 32) and every polynomial, the table generator produces the table of the bit-serial division by that polynomial, and the generic engine run with such a table returns the bit-serial checksum for every initial value, every final exclusive-or value, every combination of the input-reflection, output-reflection and final exclusive-or options, and every message.",
 [I, C], "all polynomials, initial values, final values, option combinations and messages",
 "The tests generate one table per variant polynomial and compare it; the engines are only run with the combinations the variants use.",
 ["Src/crc/crc8_base.c", "Src/crc/crc16_base.c", "Src/crc/crc32_base.c", "Src/bit_manipulation.c"],
 [("table calculator", "Src/crc/crc*_base.c: Crc*Base_tableCalculator"), ("engine", "Src/crc/crc*_base.c: Crc8Base, Crc16Base, Crc32Base")], (), ["table entries, returned checksum"])
prop("C14", "ChaCha20 produces the RFC 8439 keystream for every input",
 "For every 256-bit key, 96-bit nonce, initial 32-bit block counter and message of every length, including zero, the output is the message exclusive-or the ChaCha20 keystream of RFC 8439, where block number n uses the counter value initial + n modulo 2^32. Exactly the message's length of output is written.",
 [I, C], "all keys, nonces, counters (wrap-around included), message contents and lengths",
 "Two sample messages; partial last blocks of most lengths, counters that wrap and long messages are not reached.",
 ["Src/crypto/chacha20.c", "Src/utils.c", "Src/bit_manipulation.c"], [("block function", "Src/crypto/chacha20.c: Block"), ("block and remainder loops", "Src/crypto/chacha20.c: Chacha20_crypt")], (), ["output bytes"])
prop("C15", "ChaCha20 is self-inverse, works in place and can be resumed at block borders",
 "For every key, nonce, counter and message, applying the cipher twice restores the message, encrypting in place gives the same bytes as encrypting into a separate buffer, and cutting the message at any multiple of 64 bytes and continuing with the block counter advanced by the number of blocks already processed gives the same bytes as one call. Key, nonce and a separate message buffer are left unchanged.",
 [I, H], "all keys, nonces, counters, messages, lengths and cut points",
 "One test decrypts one message; in-place use and resumption are not tested.",
 ["Src/crypto/chacha20.c"], [("keystream only depends on key, nonce and block number", "Src/crypto/chacha20.c")], (), ["output bytes"])
prop("C16", "Caesar encryption rotates letters and decryption always restores them",
 "For every zero-terminated text and every 8-bit shift, encryption replaces each ASCII letter by the one that many places further in the alphabet, cyclically and keeping its case, and leaves all other bytes and the length alone. Decryption with the same shift rotates back, so decrypting an encrypted text restores it for every text and shift.",
 [I], "all texts of all lengths over all byte values, all 256 shifts",
 "A few words with a few shifts; shifts of 26 and more, letters that wrap, and bytes above 127 are not combined exhaustively.",
 ["Src/crypto/caesar_cipher.c", "Src/utils.c"], [("rotation arithmetic", "Src/crypto/caesar_cipher.c")], (), ["text afterwards"])
prop("C17", "Vernam encryption is undone by decryption for every message and key",
 "When the key has exactly the length of the message, encryption rotates each ASCII letter of the message, keeping its case, by the alphabet position (A or a is 0) of the key letter at the same place, and leaves other message bytes alone; for arbitrary key bytes letters still become letters of the same case, and decrypting with the same key restores the message. For any other key length both directions report failure and leave the message unchanged.",
 [I], "all messages and keys over all byte values, all lengths and length mismatches",
 "A few words with letter keys of the same or one other length.",
 ["Src/crypto/vernam_cipher.c", "Src/utils.c"], [("rotation arithmetic and length check", "Src/crypto/vernam_cipher.c")], (), ["status, message afterwards"])
prop("C18", "The JSON builder yields exactly the intended text or changes nothing",
 "For every buffer size and every sequence of pairs (names and values free of quotes), starting a text, adding pairs and ending it each succeed exactly when the resulting text including its terminator fits the buffer, and a successful sequence yields {\"name\":\"value\",...} with the pairs in order and commas only between them. A step that does not fit reports failure and leaves the text exactly as it was, and nothing outside the buffer size is read or written.",
 [H, I, C], "all sequences of start/add/end with all buffer sizes and all names and values, empty ones included",
 "The tests add one pair to one text; several pairs, exact-fit buffers and the state after a refusal are not covered.",
 ["Src/json.c", "Inc/json.h"], [("size computation before appending", "Src/json.c: Json_addData, Json_endString, Json_startString")], (), ["status, text, bytes around the buffer"])
prop("C19", "JSON lookup returns the value that belongs to exactly that name",
 "In every well-formed flat JSON object whose strings contain no escapes, with any white space between its tokens, looking up a name succeeds exactly if the object has a member of exactly that name with a string value and that value plus terminator fits the value buffer, and delivers the value of the first such named member. Text inside values, names that merely contain or end with the wanted name, non-string values of other members, bytes after the end of the text or beyond the given size never influence the result.",
 [I, C], "all flat objects, member orders, white space, names, values, value buffer sizes and text sizes (truncated texts included)",
 "One sample document with two members; names that occur inside other names or values are tested in one direction only.",
 ["Src/json.c", "Inc/json.h"], [("scanner for names, colon and value", "Src/json.c: Json_findByKey")], (), ["status and delivered value"])
prop("C20", "Decimal conversion accepts exactly the 32-bit numbers",
 "Converting a text of given length succeeds exactly if it is non-empty, at most ten characters long, consists of decimal digits only and denotes a value of at most 4294967295, and then delivers that value, leading zeros allowed; no byte beyond the given length is read. The power-of-ten helper succeeds exactly for exponents 0 to 9 and delivers that power.",
 [I], "all texts of all lengths 0..255 over all byte values; all exponents",
 "A dozen sample strings; every other length, digit position, non-digit byte and the exact overflow border are not enumerated.",
 ["Src/utils.c"], [("digit loop and overflow check", "Src/utils.c: Utils_stringToUint32"), ("power table", "Src/utils.c: Utils_quickUint32Pow10")], (), ["status and delivered value"])
prop("C21", "Serialised integers and blobs have the stated byte order and round-trip",
 "For every value, the 8, 16, 24 and 32-bit serialisers write exactly that many bytes in big-endian or little-endian order, as named, and the matching deserialisers return the value (its low 24 bits for the 24-bit form). For every blob size, big-endian blob transfer copies the bytes in order, little-endian blob transfer copies them in reverse order, nothing else is written and the source is unchanged.",
 [I], "all values of all widths, all blob sizes and contents, all buffer alignments",
 "One or two values per function and one blob.",
 ["Src/utils.c"], [("shift and mask code", "Src/utils.c: Utils_serialize*, Utils_deserialize*")], (), ["bytes written, value returned"])
prop("C22", "Bit operations are exact for every word, position and width",
 "For every 32-bit word and every position 0 to 31, testing, setting, clearing and toggling a bit affect exactly that bit, and any other position is refused with the output left alone; rotation by 0 to 32 places is the exact cyclic left rotation. Reflection over n bits, for n from 0 to 32, returns the low n bits in reversed order and zeros above.",
 [I], "all words, positions (0..255), rotation amounts 0..32 and reflection widths 0..32",
 "A handful of words and positions; rotation by 0 and widths other than 8, 16 and 32 are not covered systematically.",
 ["Src/bit_manipulation.c"], [("shift masks and position checks", "Src/bit_manipulation.c")], (), ["status and returned words"])
prop("C23", "A refused operation has no effect",
 "Whenever a call on a queue, priority queue, map, task table, text under construction, message to be Vernam-encrypted, bit position or power-of-ten exponent reports failure, the object it was applied to, its storage as seen through all later calls, and the caller's output variable are as if the call had not been made.",
 [H, F, I], "all reachable states of every object and all refusable calls in each of them, followed by all continuations up to the bound",
 "Tests check the status of a few refused calls, hardly ever what the object does afterwards.",
 ["Src/queue.c", "Src/priority_queue.c", "Src/map.c", "Src/scheduler.c", "Src/json.c", "Src/crypto/vernam_cipher.c", "Src/bit_manipulation.c", "Src/utils.c"],
 [("check before change in every operation", "all modules")], (), ["behaviour of the object after the refused call compared with its behaviour without it"])
prop("C24", "No call touches memory outside the extents it was given",
 "In every call whose documented preconditions hold, every module reads and writes only the bytes of the buffers it was given, up to the stated or zero-terminated lengths, and never writes to its input-only buffers. This also holds for malformed content (arbitrary bytes offered for decoding, number conversion or lookup) and for calls that fail.",
 [I, H, C], "all calls of the public interface with exactly sized buffers, all contents, lengths and capacities",
 "The tests use buffers with slack and no memory checker, so reads and writes just outside go unnoticed.",
 ["Src/**/*.c"], [("length and capacity checks of every function", "Src/**/*.c")], (), ["memory accesses of every call"])
prop("C25", "Separate objects never influence each other, even in nested use",
 "Any interleaving of calls on separate objects (queues, priority queues, maps, task tables, texts, arrays being sorted, checksum and cipher streams) gives each object the results it would have had alone. This includes calls made from inside a comparison function or a task while a sort or a scheduler pass is in progress, sorts and passes of the same kind included.",
 [H, PR], "all interleavings of call sequences on two objects of any two kinds, and all calls nested at any comparison or task of an outer sort or pass",
 "Every test uses one object at a time and comparison functions that call nothing.",
 ["Src/**/*.c"], [("all state lives in caller-provided objects", "Inc/*.h")], (), ["results of every call compared with running alone"])
prop("C26", "Results depend only on the arguments, never on earlier calls or stale memory",
 "The outcome of every call is a function of its arguments and of the objects passed to it: it does not depend on which calls of any module were made before, on the previous contents of output buffers or unused storage, or on leftover stack contents. Repeating a call with equal arguments always gives an equal outcome.",
 [H, I], "all histories over the whole public interface up to the bound, all previous contents of output buffers and of the stack",
 "Tests run each call once, in one fixed order, mostly into zeroed buffers.",
 ["Src/**/*.c"], [("no mutable static data", "Src/**/*.c"), ("all automatic objects initialised", "Src/**/*.c")], (), ["outcome of each call in each history"])
prop("C27", "Containers can only be set up with a usable configuration",
 "Setting up a queue, priority queue or map is refused when the object or any storage is missing, or when any size or capacity is zero (or negative, where it is signed); every other configuration is accepted and yields an empty container that holds exactly the requested number of elements, whatever the object and the storage contained before. Missing objects or elements passed to queue insertion, removal, front and rear, and a missing map passed to its operations, are refused.",
 [C, I], "all combinations of missing and present arguments and of sizes, all previous contents of object and storage",
 "The tests try a few single bad arguments.",
 ["Src/queue.c", "Src/priority_queue.c", "Src/map.c"], [("argument checks", "Queue_init, PriorityQueue_init, Map_init")], (), ["status; behaviour of the container afterwards"])
prop("C28", "Element exchange and letter classification are exact",
 "Exchanging two equally sized byte ranges exchanges all of their bytes and nothing else, for every size including zero and for a range exchanged with itself. The classification functions accept exactly the 26 upper-case, the 26 lower-case, or the 52 ASCII letters among all 256 characters.",
 [I], "all sizes and contents, all 256 characters",
 "One exchange of one size, a few characters.",
 ["Src/utils.c"], [("byte loop", "Src/utils.c: Utils_swapElements"), ("range checks", "Src/utils.c: Utils_isUpperChar, Utils_isLowerChar, Utils_isAlpha")], (), ["bytes afterwards, answers"])
prop("C29", "Binary payloads survive transport as Base64 inside JSON",
 "For every set of named non-empty binary payloads whose text fits the buffers, encoding each payload as Base64, building a JSON text from them, looking each name up again and decoding the delivered value returns exactly the original payload. If any buffer in the chain is too small, the step concerned reports failure instead of delivering a damaged or truncated payload.",
 [I, C], "all payloads, names and buffer sizes along the chain",
 "No test combines the modules.",
 ["Src/base64.c", "Src/json.c"], [("capacity contracts of the four functions fit together", "Src/base64.c, Src/json.c")], (), ["payload at the far end"])
prop("C30", "Every CRC variant detects all single-bit and short-burst errors",
 "For every variant and every message, changing the message in any single bit, or in any way confined to a span of at most as many consecutive bits (in the variant's transmission order) as the checksum is wide, changes the checksum.",
 [I], "all messages, all single-bit errors and all bursts up to the checksum width at all positions",
 "No test checks error detection.",
 CRCF, [("table entries form the linear code of an odd polynomial", "Src/crc/crc*_variants/*.c")], (), ["checksums of original and damaged message"])
prop("C31", "Behaviour is the same for every compiler, optimisation and char signedness",
 "Every specified result of every public function is independent of the compiler (gcc or clang), of the optimisation level, of whether plain char is signed, and of how uninitialised automatic storage happens to be filled.",
 [C, I], "all build configurations {gcc, clang} x {-O0 .. -O3, -Os} x {signed, unsigned char} x {automatic storage zero- or pattern-filled} over the enumerated inputs",
 "The tests are built once, unoptimised, with signed characters.",
 ["Src/**/*.c"], [("absence of undefined and implementation-defined behaviour", "Src/**/*.c")], (), ["results of all calls in each build"])

prop("C32", "A JSON lookup never delivers what the text does not say",
 "For every text whatsoever (cut off, malformed, or arbitrary bytes without backslashes) of every size, looking up a name without quotes returns. If it succeeds, the text within the stated size and before its first zero byte contains the quoted name, a colon and a quoted string, with nothing but white space between them, and the delivered value is exactly that string, terminated within the value buffer.",
 [I], "all texts, sizes and names, all value buffer sizes",
 "The tests look up names in a few well-formed texts and one or two texts without the name.",
 ["Src/json.c", "Inc/json.h"], [("scan for a string followed by a colon, copy up to the closing quote", "Src/json.c: Json_findByKey")], (), ["status and delivered value; that the call returns"])
prop("C33", "No execution has undefined behaviour or depends on an unset object",
 "In no call whose documented preconditions hold does the library overflow signed arithmetic, shift by the width of the operand or more, divide by zero, copy between overlapping areas, index an array outside its bounds, or access memory through a null or misaligned pointer. No decision, address or delivered byte depends on an object that was never given a value.",
 [I, H, C], "all calls of the public interface over the inputs and histories of all other properties",
 "The tests are compiled without any such check, and code with undefined behaviour mostly gives the expected values there.",
 ["Src/**/*.c", "Inc/misra_c_2012_doc.h"], [("position and size checks before shifts and accesses, initialised automatic objects", "Src/**/*.c")], (), ["every arithmetic operation, shift, access and decision of every call"])
prop("C34", "The library needs no memory but its buffers and a bounded stack",
 "No call requests dynamic memory. The stack a call needs is bounded by a constant: it does not grow with the number or size of elements, the length of a message or text, or the number of tasks, and it does not depend on their contents.",
 [I, C], "all calls of the public interface, all amounts of data",
 "The tests use tiny inputs on a workstation, where neither an allocation nor a stack of some kilobytes shows.",
 ["Src/**/*.c", "Inc/misra_c_2012_doc.h"], [("iterative algorithms on caller-provided storage", "Src/**/*.c")], (), ["requests to the allocator; depth of the stack"])
prop("C35", "Sizes never wrap: objects beyond 2 and 4 GiB behave like small ones",
 "Every call keeps its specified behaviour for every capacity, element size, number of elements and length that its parameters can express, also where the storage, array, message or text is larger than 2 or 4 GiB: queues stay first-in first-out, priority queues and maps keep and find every element, sorts order whole elements, byte exchange, byte-order conversion, Caesar, Vernam, ChaCha20, CRC and Base64 treat every byte, JSON texts are built and searched completely, and a length is never taken for one that is 4 GiB shorter.",
 [I, C], "all sizes and counts that the parameter types can express, on a platform whose objects can be that large",
 "The tests use at most some hundred bytes, so no position or length ever leaves 16 bits.",
 ["Src/queue.c", "Src/priority_queue.c", "Src/map.c", "Src/sort/*.c", "Src/utils.c", "Src/base64.c", "Src/json.c", "Src/crypto/*.c", "Src/crc/*.c"], [("position times element size", "Src/**/*.c")], (), ["elements, messages and texts around 2 and 4 GiB"])
prop("C36", "Every call returns, after an effort its sizes bound",
 "Every call whose documented preconditions hold returns. Inserting, removing and looking at either end of a queue take an effort that does not depend on its capacity or on how many elements it holds. Every other call takes an effort at most proportional to the number of entries and bytes it was given (capacity, element size, message, text, table), except sorting n elements: at most proportional to n log n for heap sort under a consistent comparison, and to n squared for the others. No content makes a call slower than that.",
 [I, H, C], "all calls of the public interface, all amounts of data, all contents",
 "Tests of a few bytes cannot tell constant from linear or linear from quadratic effort, and a counter too narrow for its limit only fails to reach it for sizes they never use.",
 ["Src/**/*.c"], [("loops and their ends", "Src/**/*.c")], (), ["number of basic blocks entered and bytes worked on by standard functions during each call"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
