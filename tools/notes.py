CONC = {"C14", "C15", "C17", "C18", "C19", "C20", "C21", "C22", "C32", "C42", "C46", "C48"}

# property -> (what is encoded and against what oracle, bounds: quick / thorough, what lies outside)
D = {
"C01": ("every exported operation of the tree next to a small sorted-array reference with symbolic keys; comparator a free strict total order (ascending, descending, by a key field)",
        "from empty: 3/4 symbolic operations with any keys; 4/6 insertions in any order; trees of 6-9 (thorough: to 15) keys followed by 2/3 symbolic deletions, insertions or updates",
        "trees that need more than that many symbolic steps from a listed shape; comparators that are not strict orders"),
"C02": ("the nodes are read by an in-package helper (absent it, comparator calls per lookup are counted): root black, no red-red, equal black heights, links inverse, depth bound",
        "4/6 insertions in any order; trees of 7-13 (to 16) keys with 2/4 symbolic deletions; full drains of 8/14 keys from both ends and the middle; runs of 40/100 keys with a symbolic probe",
        "trees above 100 keys"),
"C03": ("SubTree, LeftSubTree, RightSubTree and GetIf against filtering the reference; source re-listed afterwards; result mutated to show independence",
        "trees of 4-7 (7-12) fixed keys and 3/4 symbolic ones, any bounds, all inclusiveness flags; GetIf with an arbitrary predicate (one free bit per key) on up to 5/8 keys",
        "equal bounds of differing inclusiveness"),
"C04": ("Insert, Find, Delete, ChangeValue, counts against an array reference; the random level source is a stream of free values",
        "from empty: 3/4 symbolic operations with free levels; 3/4 fixed insertions with every level assignment, then two symbolic operations; lists of 12-50 with an irregular level pattern and one symbolic operation; full drains",
        "more than the stated number of free level draws"),
"C05": ("Next, Prev, FindGreaterOrEqual, smallest and largest after the same histories; both walks compared with the reference order, wrap-around included",
        "as C04", "as C04"),
"C06": ("each popped element against every remaining one under the order used; popped and remaining elements against those supplied by exact symbolic counting; orders: ascending, descending, by key with ties",
        "initial data to 5/6 elements; 5/7 interleaved pushes and pops; heaps of 9-40 with symbolic elements put in at any place",
        "larger heaps with all elements free"),
"C07": ("two lists next to slice references, all 14 operations with any element and mark (own, foreign, removed)",
        "3/4 symbolic operations on lists of 2-3 elements; single operations anywhere in lists of up to 9", "longer free histories"),
"C08": ("rings next to an explicit permutation; sizes, order and inverse links after each operation",
        "2/3 symbolic operations over rings of up to 4; single operations on rings to 12 with any step counts in range; New of -2..11", "larger rings"),
"C09": ("all queue operations against a slice; the iterator's goroutine runs in the engine's scheduler",
        "5/7 symbolic operations from empty or filled; queues to 65 elements", "longer free histories"),
"C10": ("each helper against its definition on the input; arguments and spare capacity compared before and after; results overwritten to show independence; the shuffle over a free generator",
        "all elements free to length 5-8 (to 15), one free element among up to 100; copying and reversing to 38/78; shuffles to 5/6", "all-free slices above these lengths"),
"C11": ("each helper against the input map; iteration order of the map a free permutation where listed",
        "maps to 5/6 free entries, every iteration order to 3; 8-40 entries with one free difference", "every iteration order of larger maps"),
"C12": ("Add, Remove, Clear, Contains, Items, Len against a reference of membership bits", "4/5 symbolic operations; symbolic changes to sets of 7-40; every iteration order to 4", "keys unequal to themselves (NaN)"),
"C13": ("results compared with every element of the input by solver", "collections to 5/11 free elements, seven ordered types", "NaN"),
"C14": ("Set and Load of four concrete error types in any history, and by up to three goroutines under every schedule with race detection; the value helpers on free values", "4/5 symbolic calls; two or three callers", "more callers"),
"C15": ("sync.Pool is modelled as returning any object put back or none (free choice), so every choice of the runtime is covered; ownership tracked by the harness", "6/8 symbolic calls, 6/7 for array pools; two callers together", "more than two callers"),
"C16": ("every operation with free values against a plain map, starting from each of ten storage states (clean, dirty, amended, expunged, promoted ...)", "2/3 calls of any kind, 4/5 of the common ones over two keys; values of any type incl. nil", "longer histories from these states"),
"C17": ("all interleavings of the atomic steps (partial-order reduction), each set of results explained by some order of the calls consistent with real time; deadlock, panic and data race detection in every schedule", "callers x calls: 1x1, 2x1, 1x1x1, 2x2, from each storage state, over up to 3 keys", "more than three callers or four calls"),
"C18": ("Range with a callback that modifies the map at one of its calls, and with one or two concurrent calls; visits checked against the keys stable during it and the values held", "maps of up to 3 keys from each storage state, any map order, one re-entrant call, one (two) concurrent calls", "more concurrent calls"),
"C19": ("item and output counts, sums of free values and the result under every schedule of generator, mappers and reducer; Quiesce at the end shows that no goroutine is left", "0-3 items, 1-3 workers, up to two writes per item; all seven entry points", "more items or workers"),
"C20": ("mapper, reducer and outside cancellation, contexts that end before or at any moment (the context's Done is an ordinary schedule point)", "1-2 items, 1-2 workers, every position of the cancellation; functions run together to 3", "more items or workers"),
"C21": ("a panic at every position (generator, any mapper call, reducer before/while/after reading), two panics, panics together with cancellation", "1-2 items, 1-2 workers", "more items or workers"),
"C22": ("a counter of mapper calls in progress, asserted at every start; completion asserted after the call", "1-3 items, workers -1..3", "more items or workers"),
"C23": ("the verdict against the rules written out from the documentation, over free bytes, flags and limits", "any byte string to 4/6, any 7-bit flag word, any pair of limits; non-ASCII to 3/4 bytes", "longer passwords (the check is per byte plus the length)"),
"C24": ("AES is an uninterpreted permutation per key (assumption: its inverse undoes it); modes, padding and encodings are the real code and the real crypto/cipher, hex and base64; the text is compared with one assembled by the harness from the mode's definition", "messages of 0-33/66 free bytes, all key lengths, three modes, four encoders, free IV", "longer messages; the cipher itself"),
"C25": ("any block sequence and tail under the same cipher model, well encoded or with a foreign symbol; any short text; impossible keys", "0-3/4 blocks with tails, CTR text to 35/50 bytes, any text to 5/7 bytes", "longer texts"),
"C26": ("inputs and the bytes behind them (spare capacity) compared before and after", "messages 0-18/34 bytes with 0-20 spare bytes", "longer messages"),
"C27": ("the real hash code executed with free bytes against a direct call of the standard library and, for FNV, the definition written out", "lengths around the block borders", "other lengths"),
"C28": ("bits read against bits written, all other bits compared", "sets of 0-3/4 bytes, any offset in reach (any int64 for one write), growth to 40/200 bits past the end", "offsets so large that the growth exceeds memory"),
"C29": ("counts and extracted bits against the definition for any bounds (any int64 for the resolution rule, positions within the set)", "sets of 0-3/4 free bytes", "larger sets"),
"C30": ("each combination bit by bit with free contents; operands compared afterwards; the receiver as operand", "receiver and up to three operands of up to 3-4 (6) bytes", "more operands"),
"C31": ("hex and binary forms against their definition, any text parsed", "0-5/12 bytes; texts to 4/6 symbols; separators to 2", "longer sets"),
"C32": ("two or three callers with all operations in every schedule with race, deadlock and lost-write detection; sets combined with themselves and each other in rings", "callers x calls 2x1, 1x1x1; two and three sets", "atomicity of a combination over several sets"),
"C33": ("output decoded by a decoder written out in the harness and compared; forbidden bytes excluded", "any bytes to 4/5, ASCII to 4/6, any characters among text", "longer strings (the escaping is per character)"),
"C34": ("round trip and preservation, case rules written out", "1-3 words of up to 3/4 characters; any ASCII to 5/7; any bytes to 2/3", "longer texts"),
"C35": ("an independent word segmentation and capitalisation in the harness", "any ASCII to 4/5; every initialism in any letter case between pieces of text; sample letters outside ASCII", "longer texts; other letters"),
"C36": ("definition over runs", "any text over whitespace and others to 5/7; Latin-1 spaces", "longer texts"),
"C37": ("line splitting by definition", "texts to 7/10, prefixes to 3/4", "longer texts"),
"C38": ("an independent decoder in the harness", "any text to 7/8 bytes over bases 10 and 16; escapes among pieces, bases 8, 10, 16, 36 and impossible ones; four digits of bases to 36, values beyond 16 bits", "longer texts"),
"C39": ("an independent decoder in the harness", "any text to 6/7 bytes over bases 10 and 16; several entities next to each other and to pieces; values around 2^31 and beyond in bases 2 to 36", "longer texts"),
"C40": ("reference with explicit recency order; results and hits compared after each call; clock and use limits make entries die", "5/6 symbolic operations over 3-4 keys, capacity 1-3; filling to 8/20", "longer free histories"),
"C41": ("free clock, free lifetimes, use limits 0-3", "3/4 set/advance/get rounds; 6/8 reads", "longer histories"),
"C42": ("two or three callers in every schedule, linearized against the reference; race, deadlock detection", "callers x calls 2x1, 1x1x1; from empty and full caches", "more callers"),
"C43": ("tiers are harness stores with free content and free failures; values, hits, errors and what each tier stored compared with the definition", "to 4/5 tiers single, 3 tiers x 3 keys batch, repeated keys", "longer chains"),
"C44": ("as C43 for Set, MSet, Delete; also on real LRU caches", "to 4/5 tiers, up to 2 keys", "longer chains"),
"C45": ("all views of a result compared with the request; early stop at any place", "to 4/5 keys with repeats, any hit pattern", "longer requests"),
"C46": ("the real code on a file-system model (named files, directories, one step per call; a write empties the file and fills it in a second step); encoding/json, fmt and md5 run on concrete keys, times are free; concurrent callers in every schedule", "3/4 symbolic operations over 2 keys with a free clock and lifetimes; 2-3 concurrent callers of one key", "expiry past year 2262; several processes on one directory; pointers as keys"),
"C47": ("free bytes, free field values and truncation as file content; any file operation may fail, writes may be torn", "40 shapes of content with free parts; 3/4 operations with one failing anywhere", "content outside the shapes; more than one failure per operation"),
"C48": ("the directory walked in the model, with other files, directories and names; background scan as a goroutine in every schedule against one call", "up to 6 entries and foreign files; scan with Get, Set, Delete or Purge from 4 states of the entry", "several processes"),
"C49": ("the runtime's generator replaced by a stream of free values; every bound free; rejection loops cut after the draws stated and required to be reachable", "every 31/32/63/64-bit bound or, where division is nonlinear, bounds to 40/400 and those at the borders", "floating-point draws beyond the listed facts; 64-bit modulus by arbitrary bounds with several rejections"),
"C50": ("free generator stream; result is a permutation; every arrangement reachable (reachability queries)", "n to 4/5; first swaps of ranges up to 2^63-1", "larger n"),
"C51": ("bytes behind, before and in the buffer compared; every position can differ", "lengths 0-33/79, offsets 0-3/8", "longer buffers"),
"C52": ("content, length and capacity of the converted value", "lengths to 40/200 at several offsets", "longer values"),
}

# larger inputs, mostly fixed, with free parts (added to the bounds above)
LARGE = {
"C01": "trees of 65-130 keys: one free call, a third deleted",
"C04": "lists of 130-260 keys: one call at an end, inside or between; lists of 29 keys at the greatest height",
"C06": "every size from 6 to 17 in three arrangements with one free element; heaps of up to 100 pushes with one free element",
"C07": "lists of 40 with one operation anywhere",
"C08": "rings of 33; moves and removals by up to 1025 on rings of 1-6",
"C09": "queues to 300 elements",
"C05": "lists of 29 keys at the greatest height",
"C13": "collections of 7-66 elements, one or two of them free",
"C50": "permutations and shuffles of 8-34 elements with one free draw; the first or last element can come out at every place of 6-66 (reachability queries, draws of a scattered form)",
"C15": "array pools and slices of up to 4097 (+33) elements",
"C16": "maps of 9-100 keys through growth, removal and renewal, two free calls",
"C17": "four to six callers under delay-bounded schedules (at most k deviations from three fixed orders)",
"C19": "many items, writers and workers under delay-bounded schedules",
"C20": "many items and workers, and many calls at once, under delay-bounded schedules",
"C21": "many items and workers under delay-bounded schedules",
"C22": "many items and up to 40 workers under delay-bounded schedules, with mapper calls that wait for each other",
"C23": "passwords to some dozens of bytes with a few free ones",
"C24": "messages of 64-257 (to 1025) bytes with nine free ones",
"C25": "texts of 64-176 (to 1024) bytes with free padding, or cut short, or with one symbol more or fewer",
"C26": "messages of 64-257 (to 1025) bytes",
"C27": "64-257 (to 1025) bytes with nine free ones",
"C28": "sets of 9-129 (300) bytes, ten of them free, writes at and around their borders",
"C29": "ranges over sets of 9-129 (300) bytes; ends far outside the set, to both ends of int",
"C30": "operands of 0-129 (300) bytes",
"C31": "sets of 9-129 (300) bytes, binary form to 40 (100)",
"C32": "four callers under delay-bounded schedules",
"C33": "long texts with a few free characters",
"C34": "long texts with a few free characters, long underscore runs",
"C35": "long texts with a few free characters, long underscore runs",
"C36": "runs of whitespace to some dozens, long texts",
"C37": "long texts with many lines",
"C38": "long texts with several escapes",
"C39": "long texts with several entities",
"C40": "capacities 10-65 (100) in long fixed histories with two (three) free calls",
"C42": "four callers under delay-bounded schedules",
"C43": "5-12 tiers, 9-40 keys, any failing tier, two keys anywhere",
"C44": "5-17 tiers, 1-40 keys, any two failing tiers",
"C45": "8-64 (100) keys, three free answers in four patterns",
"C46": "pairs of keys whose digests agree in their first or last 12-48 bits; 9-40 keys, any of them deleted or renewed; four callers under delay-bounded schedules",
"C47": "batches with one failing member; streams with several values",
"C48": "any directories and files failing during a purge or scan; 2-3 callers at a scan that is due; two scans, and four callers under delay-bounded schedules",
"C49": "every value of small ranges and the ends of wide ones reachable; shares of outputs per value for nine wide bounds, first or second output accepted",
}
for k, v in LARGE.items():
    a = D[k]
    D[k] = (a[0], a[1] + "; " + v, a[2])
for k in "C10 C23 C24 C25 C27 C33 C34 C35 C36 C37 C38 C39 C49 C50 C51 C52 C01 C04 C06 C07 C08 C09 C28 C30 C31 C40".split():
    a = D[k]
    D[k] = (a[0], a[1] + "; two to four calls or instances with free parts in a row and at the same time, every schedule", a[2])
NOTE = {k: v[1] + "; outside: " + v[2] for k, v in D.items()}
