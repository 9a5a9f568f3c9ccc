#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One entry per property.
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

RBT="gogenerics/gds/grbt/rbt.go"; SKL="gogenerics/gds/gskiplist/skiplist.go"; HEAP="gogenerics/gcontainers/gheap/heap.go"
LST="gogenerics/gcontainers/glist/list.go"; RING="gogenerics/gcontainers/gring/ring.go"; Q="gogenerics/gcontainers/gqueue/fifo.go"
SL="gogenerics/gcontainers/gslice/slice.go"; GM="gogenerics/gcontainers/gmap/map.go"; GS="gogenerics/gcontainers/gset/set.go"
NUM="gogenerics/gnumerics/math.go"; GC="gogenerics/gconstraints"; POOL="gogenerics/gcontainers/gpool/syncpool.go"
SM="gogenerics/gconcurrent/sync/map.go"; MR="gogenerics/gconcurrent/mr/mr.go"; PW="library/password/password.go"
CX="library/cryptox/cryptox.go"; BS="library/bitset/bitset.go"; SX="library/stringx/stringx.go"
CC="library/cachex/cache.go"; CF="library/cachex/file.go"; CL="library/cachex/lrucache.go"; FR="hack/fastrand/fastrand.go"; UX="hack/unsafex"

p("C01","Red-black tree behaves as an ordered map over any history",
"After any sequence of insertions, updates, deletions and clears, every lookup, membership test, length, emptiness test and key/value/pair listing of the red-black tree agrees with an ordered map that saw the same sequence. Inserting returns the value previously stored under an existing key (the zero value for a new key), deleting returns the removed value (zero if absent), updating changes only existing keys and reports the old value (zero if absent), and listings are in strictly ascending key order under the tree's comparison function.",
["histories","inputs"],"every history of operations with arbitrary keys and values, for any strict total order",
"the tests run two or three fixed insertion sequences; which rotation/recolour case runs depends on the relative order of all keys in the history",
[RBT],[("insert/delete with fix-up",RBT+":98-180, 371-478"),("search",RBT+":230")],[("root/sentinel/len","tree shape and cached size",RBT+":53")],["Insert","Delete","Update","Get","Search","Keys","Values","Nodes","Len","Empty","Clear"])
p("C02","Red-black tree stays balanced after every operation",
"After any sequence of insertions and deletions the tree keeps the red-black shape: the root is black, no red node has a red child, and every path from the root to a leaf passes the same number of black nodes, so no lookup needs more than 2*log2(n+1) key visits. Parent and child links agree in both directions.",
["histories"],"every history of insertions and deletions, every key order",
"the tests never inspect the shape; a missing recolour leaves every answer right and only the depth wrong",
[RBT],[("insertFix",RBT+":126"),("deleteFix",RBT+":419"),("rotations",RBT+":168-208")],None,["number of comparator calls per lookup","node links"])
p("C03","Red-black tree range extraction returns exactly the keys in range",
"Extracting a sub-tree between two keys, left of a key or right of a key yields a new independent tree holding exactly the pairs whose keys lie in the requested range, honouring whether each bound is inclusive, and leaves the source tree unchanged. Selecting values by key predicate returns exactly the values of the satisfying keys in ascending key order, and a range whose lower bound lies above its upper bound is refused by a panic rather than answered (equal bounds of differing inclusiveness are left open).",
["inputs","histories"],"every tree content, every pair of bounds present or absent in the tree, every inclusiveness combination with from < to",
"the tests use one tree and bounds that are mostly members",
[RBT],[("SubTree/LeftSubTree/RightSubTree",RBT+":246-330"),("GetIf",RBT+":346")],None,["SubTree","LeftSubTree","RightSubTree","GetIf"])
p("C04","Skip list behaves as an ordered map whatever levels are drawn",
"After any sequence of insertions, value changes and deletions, and whatever random levels the nodes were given, finding a key returns exactly the value last stored under it, the node count and emptiness agree with the number of distinct live keys, and inserting an existing key replaces its value without adding a node. Deleting removes exactly the named key and deleting an absent key changes nothing.",
["histories","inputs"],"every history of operations, every key order, every outcome of every random level draw",
"levels come from the runtime's random source, so a test sees one draw per run; the faulty link-up cases need particular level/position combinations",
[SKL],[("Insert link-up",SKL+":228"),("Delete unlink",SKL+":170"),("findExtended",SKL+":95"),("generateLevel",SKL+":73")],[("startLevels/endLevels","first and last node per level",SKL+":47")],["Find","Insert","Delete","ChangeValue","GetNodeCount","IsEmpty"])
p("C05","Skip list navigation visits all keys in order, in both directions",
"For any history and any level draws, walking forward from the smallest node visits every live key once in ascending order and then wraps to the smallest, walking backward from the largest visits them in descending order and wraps to the largest, and the smallest and largest nodes are right. Find-greater-or-equal returns the node with the least key not below the argument, and reports absence exactly when there is none.",
["histories","inputs"],"every history, key order and level draw; every probe key",
"tests walk one list built in a fixed order; prev links and end markers are only wrong after particular deletes or level draws",
[SKL],[("Next/Prev",SKL+":370-385"),("FindGreaterOrEqual",SKL+":158"),("GetSmallestNode/GetLargestNode",SKL+":358-366")],None,["Next","Prev","FindGreaterOrEqual","GetSmallestNode","GetLargestNode"])
p("C06","Heap always pops a minimum and loses nothing",
"For any heap built from any initial data and any interleaving of pushes and pops, each pop returns an element that no remaining element is less than, and the elements popped plus those remaining are exactly the elements supplied. Draining a heap therefore yields its content in sorted order.",
["inputs","histories"],"every initial slice, every push/pop history, every strict weak order with duplicates",
"tests sort two fixed arrays",
[HEAP],[("siftUp/siftDown",HEAP+":29-58"),("heapSort",HEAP+":60")],None,["New","NewWithData","Push","Pop"])
p("C07","Linked list is a consistent sequence under any operation history",
"After any sequence of pushes, insertions, removals, moves and list concatenations, walking the list forward yields exactly the sequence those operations describe, walking backward yields its reverse, and the length matches. Operations given an element or mark of another list change neither list, a removed element keeps its value and has no neighbours, and concatenating a list onto itself appends a copy of its content once.",
["histories"],"every operation history over several lists, every choice of element and mark, including the zero-value list",
"tests are fixed scenarios ported from container/list",
[LST],[("insert/remove/move",LST+":89-129"),("ownership test e.list == l",LST+":131-215")],[("root/len","sentinel ring and cached length",LST+":45")],["Front","Back","Next","Prev","Len","Range"])
p("C08","Ring operations keep closed circular lists with the documented content",
"Creating, moving, linking and unlinking rings always leaves closed rings in which next and prev are inverse, whose sizes and element order are those the documentation states: linking different rings inserts one after the other, linking within one ring removes the elements between, and unlinking n removes n modulo the ring size elements. Length and iteration visit every element exactly once from the receiver, and the zero value acts as a one-element ring.",
["histories","inputs"],"every ring size, every signed step count, every pair of link positions and every sequence of such operations",
"tests use sizes up to 10 with fixed steps",
[RING],[("Link/Unlink",RING+":89-112"),("Move",RING+":41"),("New",RING+":59")],None,["Next","Prev","Move","Len","Do","Link","Unlink"])
p("C09","FIFO queue preserves order and count over any history",
"For any interleaving of push, pop, peek, clear, bulk construction and draining iteration, elements come out in exactly the order they went in, each once, and length and emptiness always match. Popping or peeking an empty queue reports the empty-queue error with a zero value and changes nothing; iterating yields all remaining elements in order on a closed channel and leaves the queue empty.",
["histories"],"every operation history and element value",
"tests push a few constants",
[Q,LST],[("Push/Pop over the linked list",Q+":29-45"),("Iterator",Q+":78")],None,["Push","Pop","Peek","PeekAll","Iterator","Len","Clear","Gen"])
p("C10","Slice helpers match their specification for every input",
"Copying, comparing, searching, de-duplicating, reversing, merging, sortedness testing and shuffling return exactly what their documentation says for every slice, including nil and empty ones: searches give the first match, de-duplication keeps first occurrences in order, reversal is exact, shuffling permutes. Functions documented to return a new slice never share memory with, or modify, their arguments.",
["inputs"],"every pair of slices (nil, empty, spare capacity, duplicates) and every random draw of the shuffle",
"tests use short literals whose capacity equals their length, so aliasing of spare capacity never shows",
[SL],[("Merge/Copy/Unique",SL+":9,84,144"),("Reverse/Index/IsSorted",SL+":49-177")],None,["return values","argument contents after the call"])
p("C11","Map helpers agree with the map they are given",
"Keys, values and entries list every pair of the map exactly once, copies are equal to and independent of the original, and conversion from entries keeps the last value per key. Two maps are reported equal exactly when they have the same key set and equal (or function-equal) values per key, and clearing leaves the map empty.",
["inputs"],"every pair of maps, every iteration order, every equality function",
"tests compare maps whose difference shows in size or key set only",
[GM],[("Equal/EqualWithFunc",GM+":78-105"),("Map2Entries/Entries2Map",GM+":55-75")],None,["return values"])
p("C12","Set operations obey set semantics over any history",
"After any sequence of additions, removals and clears, membership, size and item listing agree with a mathematical set, each element listed once. Adding and removing always report true, as documented, and touch only the named element.",
["histories"],"every operation history and element",
"tests use a handful of integers",
[GS],[("Add/Remove/Contains",GS+":24-44")],None,["Add","Remove","Contains","Items","Len","Clear"])
p("C13","Max/min helpers return a true extremum",
"The maximum and minimum helpers return an element of their input that no other element exceeds or undercuts, for signed, unsigned, string and non-NaN float types; the comparator forms return the first element when several are equivalent. Empty collections give the zero value.",
["inputs"],"every pair and collection of any ordered type",
"tests use positive small ints",
[NUM],[("MaxCollection/MaxBy/MinCollection/MinBy",NUM+":14-97")],None,["return values"])
p("C14","Atomic error holder returns the last error set, for any error types",
"Loading an atomic error returns nil before any set and otherwise the error most recently set, under any concurrent schedule of setters and loaders, without data races and without panicking whatever concrete types of error are stored. The generic value helpers (empty/non-empty test, pointer conversion, pairs) are exact inverses of each other.",
["schedules","inputs"],"every interleaving of setters and loaders, every combination of concrete error types",
"tests set one error type from one goroutine at a time",
[GC+"/errors.go",GC+"/type.go"],[("Set/Load over atomic.Value",GC+"/errors.go:14-26"),("Pack/Unpack/ToPtr/ToValue",GC+"/type.go")],None,["Set","Load"])
p("C15","Pools hand out only reset or freshly built objects, never shared",
"A pooled Get returns either an object built by the supplied constructor or, unchanged, one that was previously put back and not handed out since. The array pool hands out either a slice that was put back, unchanged, or a fresh empty slice of exactly the requested capacity, and nothing that is put back ever has two holders at once, under any schedule of callers.",
["histories","schedules"],"every history of gets and puts and every choice the pool makes of what to return",
"whether a put object is reused is up to the runtime; tests see one choice",
[POOL],[("Pool.Get/Put",POOL+":23-30"),("ArrayPool.Get/Put",POOL+":50-57")],None,["Get","Put"])
p("C16","Concurrent map matches a plain map over any sequential history",
"For any sequence of loads, stores, swaps, load-or-stores, deletes, load-and-deletes, compare-and-swaps and compare-and-deletes, every result of the concurrent map equals that of an ordinary map given the same sequence, including across its internal promotions between read-only and dirty storage. Compare-and-swap and compare-and-delete act exactly when the key is present and its value equals the given old value.",
["histories","inputs"],"every operation history with arbitrary keys and values",
"tests call each operation once or twice; the expunged/promoted entry states need particular histories",
[SM],[("read-only/dirty promotion",SM+":491-524"),("entry states nil/expunged",SM+":147-335"),("CompareAndSwap/CompareAndDelete",SM+":383-440")],[("read/dirty/misses","two-tier storage",SM+":34")],["all exported operations"])
p("C17","Concurrent map is linearizable and race free under every schedule",
"Under every interleaving of concurrent callers, each result of the concurrent map is explained by some sequential order of the calls consistent with real time, and no schedule deadlocks, panics or has a data race. In particular load-or-store lets exactly one caller win, load-and-delete hands a value to exactly one caller, and no completed store is ever lost.",
["schedules","histories"],"every interleaving of atomic steps of two or three concurrent callers over any keys and initial content",
"tests run goroutines under whatever schedule the machine gives",
[SM],[("atomic entry pointers and mutex-guarded dirty map",SM+":121-524")],None,["results of concurrent calls"])
p("C18","Concurrent map iteration visits each stable key exactly once",
"Iterating the concurrent map visits no key twice, visits every key that is present throughout the iteration with a value it held at some moment during it, never reports a key that was absent throughout, and stops as soon as the callback says so. This holds for calls that modify the map from inside the callback or from other callers.",
["histories","schedules"],"every map state reached by any history, every iteration order, concurrent or re-entrant modification",
"tests range over a quiet map once",
[SM],[("Range promotes dirty before iterating",SM+":458")],None,["Range callback arguments"])
p("C19","Map-reduce processes every item exactly once and delivers the result",
"When no function fails, every generated item is handed to the mapper exactly once, every value a mapper writes reaches the reducer exactly once, and the call returns the value the reducer wrote, or the no-output error if it wrote none. This holds for any item count, worker count and schedule, and for the iterate-only and run-all forms.",
["schedules","inputs","configurations"],"every interleaving of generator, workers and reducer; every item and worker count",
"tests check totals under one schedule; lost or duplicated items need particular interleavings at channel close",
[MR],[("executeMappers",MR+":300"),("mapReduceWithPanicChan",MR+":153"),("drain",MR+":293")],None,["mapper calls","reducer input","return value"])
p("C20","Cancelling map-reduce returns the error and stops cleanly",
"If a mapper or the reducer cancels, or the context ends, before the reducer has delivered its value, the call returns the first cancellation error (the default cancel error for nil, the deadline-exceeded error when the context ended) rather than a result, never a success with partial data; a cancellation after the value was delivered does not change it. The call returns without deadlock or panic under every schedule and leaves no goroutine behind, and functions run together report the first error.",
["schedules","fault_sequences"],"every interleaving of cancel with writes, closes and context end",
"tests trigger one cancel with sleeps; a write racing with the close of the output is not forced",
[MR],[("once cancel and output close",MR+":153-235"),("guardedWriter",MR+":357-380")],None,["returned error"])
p("C21","A panic in any map-reduce callback reaches the caller",
"If the generator, a mapper or the reducer panics before the call was cancelled or its context ended, the call panics in the caller's goroutine with that value instead of hanging, crashing the process from a background goroutine or returning success. This holds under every schedule, only one panic is delivered when several occur, and no goroutine is left behind.",
["schedules","fault_sequences"],"every interleaving and every position of the panic",
"tests panic at one place under one schedule",
[MR],[("onceChan panic relay",MR+":382-391"),("recover in workers",MR+":276-340")],None,["panic value at the caller"])
p("C22","Map-reduce never exceeds its worker limit",
"At no moment are more mapper calls in progress than the configured worker count (at least one), and the iterate-only form returns only after every started mapper call has finished. The run-all forms have all their functions in progress together. No schedule leaves the call blocked for ever when the callbacks themselves return.",
["schedules","configurations"],"every interleaving and every worker setting including zero and negative",
"concurrency peaks are never measured by the tests",
[MR],[("pool channel of worker tokens",MR+":300"),("WithWorkers minimum",MR+":257")],None,["concurrent mapper calls","return"])
p("C23","Password check accepts exactly the passwords its rules allow",
"A password is accepted exactly when its length lies within the limits, every character is a printable non-space ASCII character, and digits, symbols and letters each occur exactly when their class is requested, with lower- and upper-case letters present when individually required. The verdict is the same for every arrangement of the same characters, and no input makes the check panic.",
["inputs","configurations"],"every byte string, flag combination and pair of length limits",
"tests are a table of sample passwords; flag combinations times byte classes is far larger",
[PW],[("CheckPassword",PW+":27-57")],None,["verdict"])
p("C24","Encryption round-trips for every key and message",
"For every valid key and every message, decrypting the output of the matching encryption (block, CBC and CTR modes, raw/hex or base64 encoding) with the same key returns exactly the original message without error. The encrypted text is the standard ciphertext of the mode (PKCS padding for block and CBC, the IV drawn from the random source in front for CBC and CTR) in the alphabet of the chosen encoding.",
["inputs","configurations"],"every 16/24/32-byte key, every message length and content, every random IV, both encodings",
"tests encrypt one sentence per mode",
[CX],[("AESEncrypt/AESDecrypt",CX+":62-101"),("AESCBC*/AESCTR*",CX+":104-194"),("padding",CX+":204-233")],None,["decrypted bytes","error"])
p("C25","Malformed ciphertext is rejected with an error, never a panic",
"Decryption with a valid key of any byte string that is not a well-formed ciphertext (bad encoding, too short, not a whole number of blocks, or padding outside 1..16 or inconsistent) returns an error and no data. No ciphertext whatever makes decryption panic.",
["inputs"],"every byte string offered as ciphertext in every mode and encoding",
"tests decrypt only well-formed text plus one or two corruptions",
[CX],[("length checks",CX+":80-150"),("pkcs5Unpadding",CX+":212")],None,["error","absence of panic"])
p("C26","Encryption and decryption leave their inputs untouched",
"Encrypting and decrypting never modify the key, the message or the ciphertext handed in, nor any memory the caller keeps beyond the end of the message in the same buffer, and what they return shares no memory with the arguments. An invalid key length is refused by a panic before anything is produced.",
["inputs"],"every message held in a buffer with any spare capacity",
"tests pass literals with no spare capacity",
[CX],[("pkcs5Padding append",CX+":204"),("in-place block loops",CX+":62-150")],None,["argument buffers"])
p("C27","Hash helpers return the standard digests",
"The MD5, SHA-1, SHA-256 and SHA-512 helpers return the lower-case hexadecimal form of the standard digest of exactly the bytes given, and the FNV-1a helpers return the standard 32- and 64-bit FNV-1a values. Inputs are not modified.",
["inputs"],"every input, bounded lengths",
"tests compare one string per hash",
[CX],[("Md5..Sha512",CX+":19-41"),("Fnv1aToUint64/32",CX+":43-57")],None,["return value"])
p("C28","Bit set reads return exactly the bits written",
"After any sequence of bit writes, reading an offset returns the value last written there and false where nothing was written, writing returns the previous value, and no other bit changes, nor any memory of the caller beyond the bytes the set was made from. Negative offsets count from the end or are rejected as documented, and iteration reports every bit of the set in order.",
["histories","inputs"],"every sequence of offsets and values, including offsets past the end and negative ones",
"tests touch a handful of offsets",
[BS],[("Set",BS+":42"),("Get",BS+":86"),("Range",BS+":103")],None,["Set","Get","Range","Bytes","Size"])
p("C29","Bit counting and sub-range extraction match the bits in range",
"Counting over any start/end returns exactly the number of set bits in the inclusive range after negative bounds are resolved from the end and clipped, and zero for an empty range. Extracting a sub-range returns a new set whose bit i equals bit start+i of the source, for every pair of bounds, without changing the source and without panicking.",
["inputs"],"every bit content and every pair of signed bounds",
"tests count whole bytes and one sub-range",
[BS],[("Count",BS+":127"),("validRange",BS+":143"),("Sub",BS+":342")],None,["Count","Sub"])
p("C30","Bit set algebra is bitwise for operands of any length",
"And, or, xor, and-not and not produce, bit by bit, the Boolean combination of the operands with shorter operands read as zero-extended, for any number of operands of any lengths. Operands other than the receiver are never changed, and clearing makes every bit read false.",
["inputs"],"every content and length of receiver and operands",
"tests combine equal-length samples",
[BS],[("And/op/Not/AndNot",BS+":170-280"),("Clear",BS+":281")],None,["Get over the result"])
p("C31","Bit set textual and byte forms round-trip",
"Parsing the hexadecimal form of a bit set reconstructs the same bits, invalid hexadecimal is rejected with an error, the binary form shows each byte's bits most significant first with the given separator, and the byte form is a copy whose modification never affects the set. Constructing from bytes preserves them.",
["inputs"],"every byte content, every hex string, every separator",
"tests parse two samples",
[BS],[("NewFromHex/String",BS+":27,332"),("Bytes/Binary",BS+":306-330")],None,["NewFromHex","String","Binary","Bytes"])
p("C32","Bit set is safe for concurrent use",
"Concurrent reads and writes of one bit set through its methods never race on memory, never deadlock and never lose a write: after all callers finish the set holds every written bit. This includes methods that combine the set with itself or combine several sets with each other in any direction at once, though such a combination need not read all its operands at one moment.",
["schedules"],"every interleaving of two or three concurrent callers",
"tests use it from one goroutine",
[BS],[("RWMutex on each method",BS+":16-363")],None,["final bits","race detector"])
p("C33","JSON string escaping round-trips through a standard decoder",
"The JSON rendering of any string is a valid JSON string literal that a standard decoder turns back into the same string, with invalid UTF-8 replaced by the replacement character. With HTML escaping on, the output contains no raw <, > or & and neither form contains raw control characters or U+2028/2029.",
["inputs"],"every byte string, both escaping modes",
"tests render a few strings",
[SX],[("StringMarshalJSON",SX+":260")],None,["output bytes"])
p("C34","Snake-case and camel-case conversion preserve letters and round-trip",
"Converting a lower-case snake identifier (words of letters and digits that start with a letter, all but the last of at least two characters, joined by single underscores) to camel case and back returns it unchanged, and neither conversion drops, adds or reorders any character of valid text other than underscores and letter case; snake case is all lower case. No input, including empty, non-ASCII and invalid text, makes them panic.",
["inputs"],"every identifier and every byte string within the length bound",
"tests convert a few names",
[SX],[("SnakeString/CamelString",SX+":29-72")],None,["output string"])
p("C35","Lint-style camel casing only changes the case of known initialisms",
"Lint-style conversion returns text that differs from its input only in letter case and removed underscores. Words end at underscores and where a lower-case letter is followed by another kind of character: exactly the words that are registered initialisms become upper case, other all-lower-case words have their first letter capitalised, the first letter of the text is upper case, leading underscores are dropped, one underscore stays between two digits, and a lone underscore stays as it is. It never panics.",
["inputs"],"every identifier within the length bound",
"tests use a small table",
[SX],[("LintCamelString/toInitialisms",SX+":75-190")],None,["output string"])
p("C36","Whitespace collapsing leaves single separators and all other text",
"Collapsing whitespace keeps every non-whitespace character in order and shortens each run of whitespace so that no whitespace character is directly followed by the same one, never joining two words and never splitting one. Applying it twice changes nothing more.",
["inputs"],"every string within the length bound",
"tests collapse one sentence",
[SX],[("SpaceInOne",SX+":250")],None,["output string"])
p("C37","Indenting prefixes every line and changes nothing else",
"Indenting text puts the prefix at the start of every line and alters no other character, so that removing the prefix from each line restores the text, whatever mixture of newlines, blank lines and trailing newline it has.",
["inputs"],"every text and prefix within the length bound",
"tests indent two samples",
[SX],[("Indent",SX+":15")],None,["output string"])
p("C38","Code-point escape decoding keeps all other text",
"Decoding backslash-u escapes (the two characters and one to four digits of the base) replaces every escape with its character and leaves every other character of the text unchanged, in particular text without escapes and text around or between escapes. A base outside 2 to 36 other than 0 decodes nothing (base 0, by which strconv reads the base off a prefix, is left open), and it never panics.",
["inputs"],"every text and base within the length bound",
"tests decode one run of escapes with nothing around it",
[SX],[("CodePointToUTF8",SX+":212")],None,["output string"])
p("C39","Numeric HTML entity decoding keeps all other text",
"Decoding numeric HTML entities (ampersand, hash, letters and digits that are all digits of the base, with value at most 2^31-1, and the semicolons that follow) replaces every entity with its character and leaves all other text unchanged, including text that only looks like an entity and entities that are prefixes of one another. It never panics.",
["inputs"],"every text and base within the length bound",
"tests decode one sample",
[SX],[("HTMLEntityToUTF8",SX+":194")],None,["output string"])
p("C40","LRU cache never exceeds capacity and evicts the least recently used",
"After any history of sets, gets, batch operations and deletes, the LRU cache holds at most its capacity of entries, a lookup returns the value last set or a miss, and the entry evicted when full is always the one least recently set or successfully read; expired or used-up entries stay until looked up, deleted or evicted in turn. Deleted keys are gone and all other entries keep their values.",
["histories"],"every operation history over any keys, any capacity",
"tests follow one fixed sequence at capacity 2 or 3",
[CL],[("doSet/getOne recency list",CL+":59-144"),("Delete",CL+":157")],None,["Get","MGet"])
p("C41","LRU cache honours time-to-live and use limits exactly",
"An entry set with a time-to-live is returned before and never after its expiry as the clock advances (a zero time-to-live expires as soon as the clock moves on), and with a use limit an entry is returned at most that many times. Setting a key again renews both.",
["histories","inputs"],"every clock reading, every time-to-live, every use limit, every history",
"tests sleep past one expiry",
[CL],[("expiry and use count in getOne",CL+":59-93")],None,["Get","MGet"])
p("C42","LRU cache is safe for concurrent use",
"Under every interleaving of concurrent single and batch reads, writes and deletes, the LRU cache has no data race, deadlock or panic, and its results and final content are those of some sequential order of the calls, a batch call counting as one call.",
["schedules"],"every interleaving of two or three concurrent callers",
"tests do not run it concurrently under the race detector with batch reads",
[CL],[("mutex on each method",CL+":51-168")],None,["results","race detector"])
p("C43","Chained cache reads through tiers in order and backfills misses",
"A read of a cache chain returns the value of the first tier that has the key, stores it with each tier's own lifetime into exactly the earlier tiers, and reports a miss only if no tier has it. A tier that fails is skipped if the chain continues on read errors, otherwise its error ends the read; a batch read gives for every requested key, duplicates included, what successive tier reads would give, in the order requested.",
["histories","fault_sequences","inputs"],"every tier content, every key list, every subset of tiers failing",
"tests use two healthy tiers and distinct keys",
[CC],[("Chain.Get/setForGet",CC+":111-139"),("Chain.MGet/msetForMGet",CC+":155-219")],None,["values, hit flags, tier calls"])
p("C44","Chained cache writes and deletes reach every tier",
"Setting, batch-setting or deleting through a chain applies the operation to the tiers as documented, with each tier's own lifetime, and reports an error if any tier it called failed. After a successful delete no tier returns the key, and after a successful set every writable tier returns the new value. Every tier is called with the caller's context, ended or not, and what that means is up to the tier.",
["histories","fault_sequences"],"every chain length and every combination of tier failures",
"tests have no failing tiers",
[CC],[("Set/MSet/Delete",CC+":141-258")],None,["tier calls","error"])
p("C45","Batch results partition the requested keys into hits and misses",
"The batch-read result's iteration, hit list, miss list and hit map are consistent: every requested key of a successful read is reported once per request as hit or miss in request order, hits with their values, and nothing else. Early stop is honoured, and the error of a failed read is handed on.",
["inputs"],"every key list and every hit pattern",
"tests use one pattern",
[CC],[("MGetResult methods",CC+":300-381"),("MGet",CC+":289")],None,["Range/RangeHit/RangeMiss/HitKeys/MissKeys/HitMapValues/HitMissKeys"])
p("C46","File cache returns the last stored value until expiry",
"A value stored in the file cache is returned by reads of the same key until its lifetime passes and as a miss afterwards, distinct keys (of different type or Go-syntax form) never see each other's values, and delete makes the key a miss. Batch forms behave as the corresponding single operations in request order, and callers using one store at the same time get the results of some order of their calls.",
["histories","inputs"],"every operation history, keys, values, lifetimes and clock readings",
"tests store a few keys and sleep",
[CF],[("getFilePath",CF+":43"),("Set/readFile",CF+":64-121"),("Alive",CF+":263")],None,["Get","MGet","Set","MSet","Delete"])
p("C47","File cache survives corrupt files and I/O faults",
"Whatever bytes a cache file contains and whichever file operation fails, a read never panics: it returns a value only from a well-formed unexpired entry in the key's file, and otherwise a miss or an error. A write that reports success is readable, and a failed write reports its error; a value that cannot be encoded is refused and leaves the entry as it was. An entry that fails does not keep the rest of a batch write or deletion from being carried out.",
["fault_sequences","crash_points","inputs"],"every file content and every failing file operation",
"tests run on a healthy temporary directory",
[CF],[("readFile decode",CF+":64-89"),("Set write",CF+":91-121")],None,["Get","Set","error"])
p("C48","File cache clean-up removes only its own dead files",
"Background expiry removes exactly the expired or unreadable cache files (regular files named *.cache below the directory) and purge removes all cache files and nothing else; live entries survive expiry, also those written or rewritten by callers while the scan runs, and other files are never deleted. What cannot be listed or removed does not keep the rest from being cleaned, and purge reports it; however many callers find it due, at most one background scan runs per clean-up cycle. Deleting an absent key is not an error.",
["histories","inputs"],"every directory content and clock reading",
"tests purge a directory that holds only cache files",
[CF],[("scanExpire",CF+":219"),("Purge",CF+":233"),("gc",CF+":188")],None,["files left on disk"])
p("C49","Bounded random draws always lie in range and panic on bad bounds",
"Every bounded random draw returns a value in the documented half-open range whatever the underlying generator yields, unbounded integer draws are non-negative of the documented width, and non-positive bounds panic as documented. Every value of the range can come out, and the signed bounded draws favour no value over another. Rejection sampling terminates whenever the generator eventually yields an acceptable value.",
["inputs","schedules"],"every bound and every sequence of raw generator outputs",
"tests draw a few numbers; the biased or out-of-range corner needs raw values a test meets with probability near 2^-31",
[FR],[("Int63n/Int31n/Intn",FR+":33-82"),("Uint32n/Uint64n/Uintn",FR+":100-118"),("Float32/Float64",FR+":85-97")],None,["return values"])
p("C50","Permutations and shuffles are permutations for every draw",
"A random permutation of n contains each of 0..n-1 exactly once and shuffling calls the swap function only with valid indices so that the multiset of elements is preserved, for every sequence of raw generator outputs. Every arrangement is reachable.",
["inputs"],"every n within the bound and every raw generator output",
"tests check one random outcome",
[FR],[("Perm/Shuffle",FR+":180-211")],None,["Perm result","swap arguments"])
p("C51","Random reads fill the whole buffer and nothing else",
"Filling a buffer with random bytes reports its full length without error, writes every byte of it from the generator's output, and touches no memory outside it, for every length and alignment.",
["inputs"],"every buffer length within the bound, every raw output",
"tests fill a few sizes and only look at the count",
[FR],[("Read and wyrand",FR+":120-178")],None,["buffer content","n, err"])
p("C52","Zero-copy string and byte conversions preserve content and length",
"Zero-copy conversion between strings and byte slices yields exactly the same bytes and length in both directions, for empty and nil inputs too, and the byte slice's capacity never extends past the string.",
["inputs"],"every string and byte slice within the length bound",
"tests convert one literal",
[UX+"/str20.go",UX+"/str.go"],[("StringToSlice/SliceToString",UX+"/str20.go:15-22")],None,["converted value"])
# calls and instances do not disturb each other (harnesses H_*_apart)
FUNCS="C10 C23 C24 C25 C27 C33 C34 C35 C36 C37 C38 C39 C49 C50 C51 C52".split()
OBJS={"C01":"trees","C04":"lists","C06":"heaps","C07":"lists","C08":"rings","C09":"queues","C28":"sets","C30":"sets","C31":"sets","C40":"caches"}
for x in P:
    if x["id"] in FUNCS:
        x["statement"]=x["statement"].rstrip(".")+"; calls disturb neither results handed out earlier nor one another when made at the same time."
        x["quantifier"]["text"]+=", also for calls in a row and at the same time"
    elif x["id"] in OBJS:
        x["statement"]=x["statement"].rstrip(".")+"; separate "+OBJS[x["id"]]+" do not affect each other, even in use at the same time."
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,x["title"]
print(len(P))
