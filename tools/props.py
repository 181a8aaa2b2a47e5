# One entry per property: the text behind properties.jsonl and MANIFEST.json (tools/gen.py writes both).
# P(id, title, statement, over, what is quantified, why tests cannot settle it, files, mechanisms [(name, where)], observe_at)
PROPS = []
NA = []
def P(id, title, st, over, text, why, files, mech, obs=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=st, over=over.split(), text=text, why=why, files=files.split(), mech=mech, obs=obs or [], state=state or []))
def N(id, title, st, over, text, why, files, mech, reason):
    P(id, title, st, over, text, why, files, mech); NA.append((id, reason))

HT = 'include/Lintel/HashTable.hpp'
P('H01', 'Hash table behaves as a finite map/multimap under every operation history',
  'After any sequence of adds, replacing adds, look-ups, removals, erasures through an iterator, clears and copies, the table contains exactly the entries a plain list would contain: a look-up finds the stored data of a key if and only if it is present, with its latest replacement, the size is right, and removal removes exactly one entry of that key. Removing a key that is required to exist but does not is refused and changes nothing. Growing, tombstone-free reuse of freed slots, and copying never lose, duplicate or alter an entry.',
  'histories inputs', 'all bounded histories of operations, all key collisions and all hash distributions',
  'Tests run a few fixed or random histories with well-spread keys; a slip that needs a particular collision chain, freed-slot reuse or a resize at one exact point is not sampled.',
  HT + ' src/HashTable.cpp', [('chained slots with a free list and doubling resize', HT), ('copy construction and assignment', HT)], ['lookup, size and traversal results'])
P('H02', 'Hash table traversal visits every entry once and tolerates documented updates',
  'A traversal by any iterator flavour visits every entry present throughout it exactly once and then ends, whatever the collisions. Erasing the entry just visited, or restarting an interrupted scan partially after removals, leaves the rest of the traversal intact. An iterator reset on any table, including one that was emptied, is at the first entry or at the end.',
  'histories inputs', 'all bounded table contents, all interruption points, all key collisions',
  'Tests traverse a few tables; order and chain layout depend on collisions and removal history.',
  HT, [('iterator walking bucket chains, with reset and partial reset', HT)], ['sequence of entries visited'])
P('H03', 'HashMap maps each key to its latest value under every history',
  'After any sequence of indexing, insertion, lookup, removal, clear, copy and assignment, the map holds exactly the keys a plain association list would hold, each with its most recent value; a newly indexed key has the default value. Lookup with a default returns the default exactly for absent keys, and reading an absent key from a constant map is refused. Keys that differ in any byte, including embedded zero bytes or length, are different keys.',
  'histories inputs', 'all bounded histories, all colliding and distinct keys, all values',
  'Existing tests use fixed keys and check a handful of end states.',
  'include/Lintel/HashMap.hpp ' + HT, [('value/key pair stored in a hash table keyed on its first member', 'include/Lintel/HashMap.hpp')], ['lookup results and size'])
P('H04', 'HashUnique is a set under every history',
  'After any sequence of additions, look-ups, removals and clears the container holds each added and not yet removed value exactly once. Adding a value already present keeps the stored representative, and the reference returned by an add denotes the stored value.',
  'histories inputs', 'all bounded histories and key collisions', 'The test adds a few fixed values.',
  'include/Lintel/HashUnique.hpp ' + HT, [('lookup-or-add on a hash table', 'include/Lintel/HashUnique.hpp')])
P('H05', 'Rotating hash map ages out exactly the untouched entries',
  'Every entry that was added or looked up since the last rotation survives the next rotation, and an entry untouched for two rotations is handed to the callback exactly once and dropped. Look-ups, indexing and removals see both generations, and the reported size counts every live entry once.',
  'histories inputs', 'all bounded histories of operations and rotations, all key collisions and values',
  'The test performs a single fixed sequence of rotations.',
  'include/Lintel/RotatingHashMap.hpp ' + HT, [('two generations with promotion on access', 'include/Lintel/RotatingHashMap.hpp')])
P('H06', 'Byte hashing is a pure function of exactly the given bytes and seed',
  'The hash of a byte range depends on every byte and on nothing outside the range, reads no byte beyond it, does not depend on alignment, and equals the published algorithm for every length and seed. The hashes of strings, C strings and integers agree with hashing their bytes or the documented mixing.',
  'inputs', 'all lengths up to the bound, all byte values at any position, all seeds',
  'Tests compare a few precomputed hashes; the tail handling differs for each length modulo 12.',
  'src/HashFns.cpp include/Lintel/HashFns.hpp', [('12-byte mixing loop and length tail', 'src/HashFns.cpp')])
P('D01', 'Deque keeps FIFO order and index/iterator arithmetic for every wrap position',
  'Whatever sequence of appends, front removals, clears and reservations was made, front, back, indexing and iteration yield exactly the appended and not yet removed elements in order. Iterator addition, subtraction, difference and comparison behave as those of plain positions for every wrap of the underlying ring, including negative offsets. Appending an element of the deque itself works even when the deque has to grow.',
  'histories inputs', 'all bounded histories, all wrap positions, all in-range positions and offsets',
  'Tests exercise few ring layouts; wrapping, full and growth positions interact.',
  'include/Lintel/Deque.hpp', [('ring buffer with doubling growth and wrapping iterators', 'include/Lintel/Deque.hpp')])
P('D02', 'Deque constructs and destroys every element exactly once',
  'Each element appended is destroyed exactly once, no later than the destruction of the deque, and no element is used after its destruction or before its construction, whatever the history of growth, removal, clear and copying. Nothing allocated by the deque or its elements is leaked.',
  'histories', 'all bounded histories with any ring rotation', 'Tests use elements without resources and never count destructions.',
  'include/Lintel/Deque.hpp', [('placement construction and explicit destruction in the ring', 'include/Lintel/Deque.hpp')])
P('Q01', 'Priority queue always yields a most important element and loses none',
  'After any history of pushes, pops, bottom-up pops, top replacements and clears, the top is a most important element among those pushed and not yet removed, and removing elements until empty yields exactly that multiset in order of importance. This holds for strict and reflexive orderings, for equal keys, any initial capacity and elements of any size.',
  'histories inputs', 'all bounded histories, all key values including ties',
  'Tests drain a few random heaps; a wrong child comparison shows only for particular shapes and ties.',
  'include/Lintel/PriorityQueue.hpp', [('binary heap with sift-up/sift-down and bottom-up pop', 'include/Lintel/PriorityQueue.hpp')])
P('B01', 'Byte buffer is a faithful byte queue: no byte lost, changed or invented',
  'After any sequence of appends, consumes, in-place writes, extensions, truncations, replacements, resizes, shifts, resets and assignments, the readable region holds exactly the bytes written and not consumed, in order, and the readable and writable sizes are consistent with the buffer size. Requests beyond the available amounts are refused instead of corrupting memory. Equality compares exactly the readable bytes, and appending a buffer to itself doubles its contents.',
  'histories inputs', 'all bounded histories, all byte values and amounts', 'The test follows one scripted sequence.',
  'include/Lintel/ByteBuffer.hpp', [('front/back offsets over one allocation, resize and shift', 'include/Lintel/ByteBuffer.hpp')])
P('B02', 'Byte buffer copies never observe each other',
  'A write through one copy of a buffer is never visible through another copy, and the written copy behaves as if it had never been shared, including the space it reported as writable. When copying on write was not permitted, mutating a shared non-empty buffer is refused and leaves every copy unchanged.',
  'histories inputs', 'all bounded interleavings of mutations on copies, with any contents and free space', 'Tests mutate one fixed copy.',
  'include/Lintel/ByteBuffer.hpp', [('shared representation, made unique before every mutation', 'include/Lintel/ByteBuffer.hpp')])
SU = 'include/Lintel/StringUtil.hpp src/StringUtil.cpp'
P('S01', 'Split and join are inverse and cut at exactly the separators',
  'Splitting a string cuts it at every occurrence of the separator, leftmost first, dropping and inventing nothing, so that joining the parts with the same separator gives the original back. Joining puts the separator between consecutive parts only, and splitting a join of parts that do not contain the separator gives the parts back. Splitting on an empty separator is refused.',
  'inputs', 'all strings, separators and part lists within the bounds, including embedded zero bytes and self-overlapping separators', 'Tests split a handful of literals; separators that overlap themselves or end the string are not among them.',
  SU, [('repeated find and substr', 'src/StringUtil.cpp'), ('join', 'src/StringUtil.cpp')])
P('S02', 'Hexadecimal conversion is lossless and refuses anything that is not hex',
  'Converting bytes to hexadecimal and back gives the same bytes for every byte value, in both forms of the call. A string is recognised as hexadecimal exactly when it consists of an even number of hex digits; decoding anything else is refused, and the optional conversions leave it, or printable data, unchanged.',
  'inputs', 'all byte strings within the bounds', 'Tests convert a few strings; sign extension or one wrong digit boundary shows for single byte values only.',
  SU, [('nibble tables in hexstring/hex2raw', 'src/StringUtil.cpp')])
P('S03', 'SQL escaping neutralises every special byte and is lossless',
  'The escaped form of any byte string contains no bare quote, line break, NUL or control-Z, every backslash in it belongs to a complete escape, and a server undoing the documented escapes reads back the original bytes. Both forms of the call give the same result.',
  'inputs', 'all byte strings within the bounds', 'An injection needs one particular byte in one particular place; tests escape one literal.',
  SU, [('byte-wise escape switch', 'src/StringUtil.cpp')])
P('S04', 'Escaped unprintable data is printable and readable back',
  'The escaped form of any byte string consists of printable characters only and determines the original bytes, for strings of every size including those around the internal size threshold.',
  'inputs', 'all byte strings within the bounds', 'Tests use two or three strings.',
  SU, [('escapeUnprintable', 'src/StringUtil.cpp')])
P('S05', 'A converted CSV field stays exactly one field',
  'A row of converted fields, joined with commas, reads back as exactly those fields whatever bytes they contain: commas, quotes, blanks and line breaks inside a field never split it, end the row or change it.',
  'inputs', 'all byte strings within the bounds', 'Tests convert a few literals without mixing quotes, commas and line breaks.',
  SU, [('toCSVform quoting', 'src/StringUtil.cpp')])
P('S06', 'Prefix and suffix tests are exact and IPv4 text and numbers agree',
  'Prefix and suffix tests compare exactly the bytes at the start or the end, for every pair of lengths. Every IPv4 address is written in dotted decimal and read back as the same address, octal and hexadecimal octets are read by their value, and a malformed address is refused.',
  'inputs', 'all strings within the bounds and all 2^32 addresses', 'Tests try a few addresses and strings.',
  SU, [('prefixequal/suffixequal', 'include/Lintel/StringUtil.hpp'), ('ipv4tostring/stringtoipv4', 'src/StringUtil.cpp')])
P('S07', 'Decimal strings convert to integers exactly or are refused',
  'Converting a decimal string gives exactly its value if the whole string is an optionally signed integer in the range of the result type, for 8 to 64 bit types, and is refused otherwise: nothing is truncated, wrapped or partly read.',
  'inputs', 'all short strings and all digit strings around the limits of each type', 'Tests try a few values per type; limits of each type and stray characters interact.',
  'include/Lintel/StringUtil.hpp', [('stringToInteger over boost::lexical_cast', 'include/Lintel/StringUtil.hpp')])
P('S08', 'Case conversion and blank tests are exact bytewise',
  'Case conversion changes exactly the ASCII letters of the other case, keeps every other byte and the length, and the blank and white-space tests hold exactly when every byte is of that class, for all byte values including those above 127.',
  'inputs', 'all byte strings within the bounds', 'Tests use ASCII literals.', SU, [('byte-wise loops', 'src/StringUtil.cpp')])
P('S09', 'A string converts to a double as a whole or is refused',
  'Converting a string to a double succeeds only if the whole string, including anything after an embedded NUL byte, is one number with optional leading blanks, and gives the exact value of an integral number. Empty strings, trailing characters and embedded NUL bytes are refused.',
  'inputs', 'all strings within the bounds over the characters that matter', 'Tests convert a few good strings and very few bad ones.', SU, [('strtod and end-pointer test', 'src/StringUtil.cpp')])
P('E01', 'Base-64 decoding undoes encoding and is memory safe on anything',
  'Decoding an encoded string gives the original bytes for every length and content. The digits are the bits of the data, most significant first, padded with zero bits, cut or extended to the requested number of digits. Decoding any string whatever reads and writes inside its buffers only and gives the bits of the digits it has.',
  'inputs', 'all byte strings and digit counts within the bounds', 'Tests round-trip random alphabets; bytes outside the alphabet and partial groups are not tried.',
  'include/Lintel/Base64.hpp', [('bit accumulator over a 64 letter table', 'include/Lintel/Base64.hpp')])
P('E02', 'Base-64 codes are ordered as the encoded data and numbers',
  'The encoded forms of two strings compare as the strings themselves do, and the encoded forms of two unsigned numbers with equally many digits compare as the numbers. Numbers are encoded big-endian, right-aligned, with zero digits in front, for every digit count.',
  'inputs', 'all pairs of strings and of 32- and 64-bit numbers within the bounds', 'Tests compare a few pairs.',
  'include/Lintel/Base64.hpp', [('order-preserving alphabet', 'include/Lintel/Base64.hpp'), ('encodeBackward', 'include/Lintel/Base64.hpp')])
P('M01', 'Substring search finds the leftmost occurrence for every needle and haystack',
  'The search returns the offset of the leftmost occurrence of the needle, or none exactly when there is none, for every needle and haystack of any bytes, reading nothing outside the haystack and independent of the life time of the needle it was built from. An empty needle is refused.',
  'inputs', 'all needles and haystacks within the bounds', 'Skip-table slips show only for particular repetitions in needle and haystack.',
  'src/BoyerMooreHorspool.cpp include/Lintel/BoyerMooreHorspool.hpp', [('bad character skip table', 'src/BoyerMooreHorspool.cpp')])
P('I01', 'Interpolation search is a lower bound whatever the estimator guesses',
  'For every sorted range and value the search returns the first position not less than the value, for any estimator that returns an offset inside the range and any step configuration; it terminates, never asks the estimator about a value outside the range it passes, and never reads outside the range. The default estimator always returns an offset inside the range, also for ranges spanning the whole value type.',
  'inputs', 'all sorted ranges, values and estimator answers within the bounds', 'Tests use smooth data; adversarial estimators and extreme values are not sampled.',
  'include/Lintel/unstable/InterpolationSearch.hpp', [('estimate, bracket, and narrow', 'include/Lintel/unstable/InterpolationSearch.hpp')])
P('C01', 'Constant strings are interned faithfully, with stable contents and exact order',
  'A constant string holds exactly the bytes it was made from, including embedded zero bytes, for ever: later interning never moves or changes it. Two constant strings are equal exactly when their bytes are, equal contents share one representation, and the order is the bytewise order, consistent with equality and with the order of the corresponding std::strings.',
  'histories inputs', 'all pools of strings within the bounds, all byte values, every fill level of a pool buffer', 'Tests intern a few texts without zero bytes and never fill a pool buffer to the last bytes.',
  'src/ConstantString.cpp include/Lintel/ConstantString.hpp', [('hash table over strings packed in large buffers', 'src/ConstantString.cpp')])
P('P01', 'Checked pointer casts accept exactly the objects of the requested type',
  'A checked down-cast or cross-cast of a pointer, shared pointer or reference yields the same object, adjusted to the requested base, exactly when the dynamic type of the object is or derives unambiguously from the requested type, and refuses every other object; null pointers are treated as documented. Shared casts share ownership with their source.',
  'inputs', 'all dynamic types of a hierarchy with single, multiple and virtual bases, null and non-null', 'Tests try one base and two derived classes.',
  'include/Lintel/PointerUtil.hpp', [('dynamic_cast with a check', 'include/Lintel/PointerUtil.hpp')])
P('P02', 'Iterator range comparison is element-wise equality of equal lengths',
  'Comparing two ranges gives true exactly when they have equally many elements and every pair of corresponding elements is equal by the equality of the elements, whichever kinds of iterators are used; neither range is read past its end.',
  'inputs', 'all pairs of ranges within the bounds, of equal and of different length', 'Tests compare two fixed vectors.',
  'include/Lintel/STLUtility.hpp', [('single-pass loop over both ranges', 'include/Lintel/STLUtility.hpp')])
P('T01', 'Tuples with wildcards: equality, order and hash agree with each other',
  'Two tuples with wildcards are equal exactly when they have wildcards at the same positions and equal values elsewhere; the values under a wildcard matter to neither equality, nor hash, nor order. Equal tuples hash equal, and the order is a strict total order that compares component by component with a wildcard after every value.',
  'inputs', 'all tuples of up to four integer components and every combination of wildcards', 'Tests compare a handful of tuples.',
  'include/Lintel/Tuples.hpp', [('bit set of wildcards beside the tuple', 'include/Lintel/Tuples.hpp'), ('recursive tuple hash', 'include/Lintel/Tuples.hpp')])
P('T02', 'Statistics by tuple key are kept per key and walked completely',
  'Every value added under a key contributes to the statistic of exactly that key; a look-up gives the statistic of exactly the keys seen. The walks visit each key once, in sorted order where promised, the walk with zeros visits exactly the cross product of the component values seen, and pruning removes exactly the keys the predicate names.',
  'histories inputs', 'all bounded histories of additions, look-ups and prunings over colliding and distinct keys', 'Tests walk one fixed table.',
  'include/Lintel/HashTupleStats.hpp include/Lintel/Tuples.hpp ' + HT, [('hash map from tuples to statistics', 'include/Lintel/HashTupleStats.hpp')])
P('T03', 'The statistics cube rolls up exactly the rows each pattern covers',
  'After cubing a table of statistics, the statistic of every combination of values and wildcards accumulates exactly the rows that combination covers, for every inclusion rule. The walk with zeros visits the complete cross product including wildcards, and pruning and the partial cubes touch exactly the named entries.',
  'histories inputs', 'all bounded sets of rows over two and three components, every inclusion rule and prune set', 'The test cubes one fixed table.',
  'include/Lintel/StatsCube.hpp include/Lintel/HashTupleStats.hpp include/Lintel/Tuples.hpp', [('recursive roll-up over wildcard positions', 'include/Lintel/StatsCube.hpp')])
P('N01', 'Approximate comparison of doubles is consistent with its tolerance',
  'Exactly one of less, equal and greater holds between two ordered doubles, the mirrored comparison mirrors the result, less-or-equal and greater-or-equal are their unions, and every double equals itself, infinities included. Values that differ by less than the relative tolerance are equal and values that differ by more are not, at every magnitude and sign; tolerances given in digits or bits are the corresponding powers.',
  'inputs', 'all pairs of a grid of magnitudes, signs and differences around the tolerance; thorough: all pairs of doubles for the order', 'Tests compare a few constants.',
  'src/Double.cpp include/Lintel/Double.hpp', [('relative difference test', 'src/Double.cpp')])
P('V01', 'Simple statistics summarise exactly the values added, however they are merged',
  'Count, total, minimum, maximum, mean, mean square, variance, standard deviation and confidence interval are those of exactly the values added since the last reset, in any order. Merging statistics, in either direction and with empty ones, gives the statistics of the union of the values, including extremes. Non-finite values are handled as documented and asking an empty statistic for moments is refused or gives the documented value.',
  'histories inputs', 'all bounded sequences of values and all ways to split and merge them', 'Tests add one fixed sequence and print it.',
  'src/Stats.cpp include/Lintel/Stats.hpp', [('running sums and extremes', 'src/Stats.cpp')])
P('V02', 'A bounded statistics sequence keeps equal consecutive spans of all values',
  'However many values are added, the sequence keeps at most the retained number of buckets: each bucket covers equally many consecutive values, a power of two, and holds the sum, mean or maximum of exactly its span according to the chosen rule. Overall statistics are those of all values, and after a reset nothing of the past remains. Changing the rule after a value was added, odd or zero sizes, and reading a bucket that does not exist are refused.',
  'histories inputs', 'all bounded sequences of values through several rescalings, every merge rule', 'The test prints one fixed sequence.',
  'src/StatsSequence.cpp include/Lintel/StatsSequence.hpp', [('pairwise merging when the buckets are used up', 'src/StatsSequence.cpp')])
P('A01', 'Atomic operations are indivisible and return the documented value',
  'Every operation of Atomic and AtomicCounter (load, store, exchange, compare-exchange, the fetch operations, the increment, decrement and compound assignments, and the named compatibility functions) has its documented effect and result at every width, and is one indivisible step: whatever threads do concurrently, all results and the final value are those of some one-at-a-time order of the operations.',
  'schedules inputs', 'all interleavings, within a context-switch bound, of up to three threads with any pair of operations, all 32-bit operands', 'The test hammers increments and sums them; a lost update in a rarer operation or window does not show.',
  'include/Lintel/AtomicCounter.hpp', [('locked x86 instructions in inline assembly, compare-exchange loops', 'include/Lintel/AtomicCounter.hpp')])
P('A02', 'Locks exclude, let readers share, and let every waiter in',
  'A write lock is held by one thread at a time and never together with a read lock of the same lock; read locks can be held together. A lock that has been released can be taken again, a waiting thread gets in once the holders have left, and the scoped forms hold the lock exactly from construction to destruction. This holds for the variants built on spinning, on mutexes and on read-write locks.',
  'schedules', 'all interleavings, within a context-switch bound, of two threads entering repeatedly and three threads entering once, as readers or writers', 'The test runs threads on one core or with rare collisions; windows of one instruction do not show.',
  'include/Lintel/Lock.hpp include/Lintel/AtomicCounter.hpp', [('ticket and reader counters over atomics', 'include/Lintel/Lock.hpp')])
P('L01', 'Scoped locks hold exactly for their scope and lock levels only rise',
  'A scoped lock holds its mutex from construction to destruction, also when an exception leaves the scope, and a scoped unlock gives it up for its own scope and takes it back. In a lock ordering group a lock is admitted only at a level above all the group locks the thread holds, anything else is refused before the mutex is touched, and leaving a scope restores the level before it. Threads have levels of their own.',
  'histories inputs', 'all nestings of scopes within the bounds, every level a double, normal and exceptional exits', 'Tests nest two locks in one order.',
  'src/PThread.cpp include/Lintel/PThread.hpp', [('level in a thread specific pointer', 'src/PThread.cpp'), ('scoped lock classes', 'include/Lintel/PThread.hpp')])
P('L02', 'Mutexes exclude, and their queries and refusals tell the truth',
  'At most one thread holds a mutex, so protected updates are never lost. A try to lock succeeds exactly when the mutex is free and then holds it, the query of who holds it is right, misuse (unlocking what is not held, destroying a held mutex) is refused where checking is on, and the contention count counts exactly the lock calls that had to wait.',
  'schedules histories', 'all bounded histories on two mutexes and all interleavings, within a context-switch bound, of up to three threads', 'Tests lock without contention or sum under it.',
  'src/PThread.cpp src/SimpleMutex.cpp include/Lintel/PThread.hpp include/Lintel/SimpleMutex.hpp', [('error-checking pthread mutex with wrappers', 'src/PThread.cpp')])
P('L03', 'Condition variables lose no wake-up and timed waits end at the right time',
  'A wait gives up the mutex and holds it again when it returns; a signal wakes a waiter and a broadcast wakes every one, so that producers and consumers hand over every item exactly once and nobody is left waiting. A timed wait uses the deadline now plus the interval, to the nanosecond with a normalised nanosecond part, says whether it was signalled or timed out, and refuses other errors.',
  'schedules inputs', 'all clock values and intervals within the bounds; all interleavings, within a context-switch bound, of producers and consumers', 'Tests wait for a few fixed intervals on the real clock and one schedule.',
  'src/PThread.cpp include/Lintel/PThread.hpp', [('interval added to clock_gettime with carry', 'src/PThread.cpp')])
P('L04', 'A thread object runs its function once per start and its value is joined',
  'Each start runs the body exactly once in a new thread, join returns its value and lets the object be started again, and starting a running thread, joining one that does not run or destroying a live one is refused. The attributes asked for are those used; a thread without signals starts with every signal blocked and leaves the mask of its creator as it was. The number of processors honours the documented override.',
  'histories schedules', 'all bounded histories of operations on two threads, all signal masks of the creator over eight signals', 'Tests start and join a few threads in one order.',
  'src/PThread.cpp include/Lintel/PThread.hpp', [('start function handing over a live flag', 'src/PThread.cpp')])
P('R01', 'The Mersenne Twister is MT19937 for every seed, key and state',
  'Seeding with a number or an array of words, however long, and every block of output words follow the published algorithm exactly, so streams are reproducible across machines. Seeding again restarts the stream as if the generator were new, and an empty key is handled within its bounds.',
  'inputs', 'every 32-bit seed, every key up to the bound, every generator state', 'Tests compare the first outputs of one or two seeds.',
  'src/MersenneTwisterRandom.cpp include/Lintel/MersenneTwisterRandom.hpp', [('state recurrence and tempering', 'src/MersenneTwisterRandom.cpp')])
P('R02', 'Derived random values keep their documented range and are unbiased',
  'Bounded integers are below their limit, and the unbiased form gives every value from equally many generator words. Fast booleans use every bit of a word once, open and closed doubles stay within their ends, a shuffle is a permutation chosen by the words drawn, and seeding again restarts the stream completely, cached bits included.',
  'inputs', 'every word the generator can produce, limits within the bounds, every shuffle draw', 'Tests check averages of samples; an end point or a rare rejected word is not sampled.',
  'include/Lintel/MersenneTwisterRandom.hpp src/MersenneTwisterRandom.cpp', [('templates over a generator of words', 'include/Lintel/MersenneTwisterRandom.hpp')])
P('R03', 'Marsaglia generators are determined by their seed and follow the recurrence',
  'Every generator of this family produces a stream determined by its seed alone, whatever the memory it is built in held, that equals the published xorshift or multiply-with-carry recurrence for every table size.',
  'inputs', 'every seed for the small generator, every size and arbitrary initial memory for the others', 'Tests print or average a few values; reading a word never initialised goes unnoticed.',
  'include/Lintel/MarsagliaRandom.hpp', [('xorshift and lagged multiply with carry', 'include/Lintel/MarsagliaRandom.hpp')])
P('K01', 'Clock representations convert to the nearest value and back without loss',
  'Seconds with microseconds or nanoseconds convert to a binary fraction and back to the same value for every unit of every second, in order. Conversions between doubles, 32.32 fractions, microsecond counts and time structures lie within half a unit of the source, carry into the seconds instead of wrapping, and refuse what the target cannot represent.',
  'inputs', 'every second, every microsecond or windows of nanoseconds and fractions', 'Tests convert a few hundred random values; one unit in a million rounding the wrong way is missed.',
  'include/Lintel/Clock.hpp src/Clock.cpp', [('fixed-point multiplications with rounding constants', 'include/Lintel/Clock.hpp')])
P('K02', 'Time from the cycle counter is the last clock reading plus the cycles since',
  'A time derived from the cycle counter is the last reading of the clock plus the cycles elapsed at the calibrated rate. It reads the clock again whenever the interval allowed has passed, the counter ran backwards or the last reading took too long to calibrate by, counts good and bad calibrations, and always reads the clock under the policies that distrust the counter. An interval that would overflow the arithmetic is refused.',
  'histories inputs', 'all short histories of counter and clock readings, including jumps', 'The real counter never jumps in a test.',
  'include/Lintel/Clock.hpp src/Clock.cpp', [('calibrated cycle counter with periodic recalibration', 'src/Clock.cpp')])
P('V05', 'Histograms count every value once, in the bin whose range holds it',
  'Every value added is counted once, in the bin whose limits hold it, or in the end bin of a fixed range; nothing outside the bins is touched, whatever the value. Rescaling and growing keep every count and cover the new value, sums of data stay with their bins, mode and percentiles follow from the counts, and a group hands each value to the one range that holds it. Bins that do not exist and misuse are refused, and no memory is lost.',
  'histories inputs', 'all short histories of additions and resets around fixed, scalable and growable ranges; any double for memory safety', 'Tests print the bins of one random sample; limits hit exactly, odd numbers of bins and rounding just below the upper limit are not sampled.',
  'src/StatsHistogram.cpp include/Lintel/StatsHistogram.hpp', [('bins rescaled in pairs or extended', 'src/StatsHistogram.cpp')])
P('V03', 'Read/write statistics route every value and names find their kind',
  'A value given as a read or a write reaches that statistic and the one of everything, until values are given to the latter alone; absent statistics are skipped, those handed over are destroyed, each with values is printed once, and groups of intervals begin together. A statistic made by name is of the kind configured for the longest prefix of the name ending before a run of dashes, or of the default kind, with the settings given.',
  'histories inputs', 'all orders of kinds up to the bound, every subset of statistics, all names over three characters within the bound', 'Tests make one of each and print them.',
  'src/StatsRW.cpp src/StatsMaker.cpp include/Lintel/StatsRW.hpp include/Lintel/StatsMaker.hpp', [('routing with an automatic total', 'src/StatsRW.cpp'), ('prefix look-up', 'src/StatsMaker.cpp')])
P('V04', 'Series, interval and moving-average statistics follow their definitions',
  'The autocovariance at every lag is the mean of the products of deviations that far apart, nothing for lags as long as the series. A group of intervals summarises every value in the half-open interval of its time, with empty statistics for intervals without values, and refuses times that go back. An exponential moving average is the mean until there are more values than one over the rate and decays from then on. Resets forget everything and no memory is lost.',
  'histories inputs', 'all series, times and values within the bounds, one value or time over its whole width', 'Tests compare one published series; lags beside the length of the series and gaps between intervals are not sampled.',
  'src/StatsSeries.cpp src/StatsSeriesGroup.cpp src/StatsEMA.cpp include/Lintel/StatsSeriesGroup.hpp', [('running products with first and last samples', 'src/StatsSeries.cpp'), ('interval list', 'src/StatsSeriesGroup.cpp')])
P('F01', 'System call wrappers pass everything on and let no failure by',
  'Each wrapper makes its system call once with the arguments given and returns its result, and a failed call never passes for a success. Reading a given length takes exactly that much from the file, or all there is before its end, in order and within the buffer, however the calls below divide it up.',
  'inputs', 'every argument and result of a call, every division of a read into pieces with a failure at any point', 'Tests read local files, where the kernel delivers everything at once.',
  'include/Lintel/Posix.hpp', [('wrappers checking the result', 'include/Lintel/Posix.hpp')])
P('G01', 'The log level that counts is the last one set and every message arrives once',
  'The debug level of a category is the last level set for its name or for a prefix covering it, whether or not it was used before, and 0 otherwise; one name has one identity. Option strings set exactly the levels written and refuse others. Every message reaches every destination once, in order, unchanged and with its type, one thread at a time; without destinations it reaches the console stream of its type. First use by several threads makes one registry, and the table of levels never moves.',
  'histories inputs schedules', 'all short histories of settings and questions, levels of every value, every schedule of two threads within the preemption bound', 'Tests set a few levels before use in one thread; order of setting and use, levels beyond eight bits and racing first use are not sampled.',
  'src/LintelLog.cpp include/Lintel/LintelLog.hpp', [('registry behind a pointer, locked on the slow path', 'src/LintelLog.cpp'), ('unlocked level test', 'include/Lintel/LintelLog.hpp')])
P('V06', 'Quantiles of a stream stay within the promised rank error',
  'A quantile asked for is one of the values added, exact while all values fit, later within the rank error the collapses done allow and within the error asked for up to the promised number of values. Larger shares give no smaller quantiles, asking changes nothing, the kept values always stand for all that were added. Merging adds the errors at most, equals the source when merged into nothing, and leaves it alone. Nothing outside the buffers is touched and no memory is lost.',
  'histories inputs', 'all orders of few values, one arbitrary value anywhere in long streams of four patterns, several shapes and merges', 'Tests check random streams of one shape; queries between additions, merges of empty or unlike streams and more buffers than values per buffer are not sampled.',
  'src/StatsQuantile.cpp include/Lintel/StatsQuantile.hpp', [('buffers of equal level collapsed into one', 'src/StatsQuantile.cpp'), ('search across buffers', 'src/StatsQuantile.cpp')])
N('V07', 'Logarithmic histograms count every value in the bin of its logarithm',
  'A logarithmic histogram counts every value once, in the bin whose limits hold it, for every base and range.',
  'inputs', 'every range, base and value', 'Tests print the bins of one sample.', 'src/StatsHistogram.cpp include/Lintel/StatsHistogram.hpp', [('bins over log(value)', 'src/StatsHistogram.cpp')],
  'the bin is computed with log() and exp() of the C library on symbolic values; transcendental functions have no exact bit-precise encoding in the solver, and a stand-in would decide the property for the stand-in')
N('R04', 'Random numbers of other distributions follow them',
  'Exponential, normal, log-normal and other variates are the documented function of the uniform variates drawn.',
  'inputs', 'every stream of generator words', 'Tests compare averages.', 'src/drawRandomLogNormal.cpp include/Lintel/RandomBase.hpp src/MathSpecialFunctions.cpp', [('inverse transforms with libm', 'src/drawRandomLogNormal.cpp')],
  'depends on log, sqrt, exp and the gamma function of symbolic doubles from libm, which cannot be encoded; a distribution is also a statement about frequencies, not about every input')
N('R05', 'Least squares and matrix results are within rounding of the exact solution',
  'Fits and matrix operations are within a stated rounding error of the exact result.', 'inputs', 'all finite data', 'Tests use a few data sets.',
  'src/LeastSquares.cpp src/Matrix.cpp', [('sums of products in double arithmetic', 'src/LeastSquares.cpp')],
  'an error bound over symbolic double multiplications and divisions is beyond the bit-blasting solvers here (a single symbolic double product chain of this length does not finish); integer data would only exercise the textbook formula')
N('K03', 'The calibrated clock rate is the real one',
  'The rate measured at start is that of the hardware cycle counter, within the accuracy asked for.', 'schedules', 'every machine and load', 'A test sees one machine.', 'src/Clock.cpp', [('calibration loop against gettimeofday', 'src/Clock.cpp')],
  'the subject is the hardware counter and the real clock, not the code; K02 decides the arithmetic for every reading of them')
N('J01', 'String identities are unique and stable',
  'Equal strings get one identity and different strings different ones.', 'histories', 'all histories of strings', 'There is no test.', 'include/Lintel/StringId.hpp src/StringId.cpp', [('table of strings', 'src/StringId.cpp')],
  'the header does not compile with any current compiler and the source is not part of the build, so there is no code to encode')
N('Y01', 'The scripts and Perl modules do what their manuals say',
  'deptool, flock, batch-parallel, the latex and mercury helpers and the Perl modules follow their manual pages.', 'inputs', 'all command lines and files', 'Tests run a few commands.', 'src/deptool.in src/lintel-flock.in src/batch-parallel.in src/perl src/BatchParallel', [('Perl programs', 'src/deptool.in')],
  'Perl programs: there is no symbolic executor or compiler to an intermediate representation for Perl here')
P('O01', 'Wrapped help texts fit the width and keep the text',
  'A wrapped help text has no line longer than the width of the terminal (80 where unknown, at least 10), and is the text given with spaces turned into line breaks or breaks put in, nothing else lost or changed, for every arrangement of words and breaks; wrapping ends and never aborts.',
  'inputs', 'all texts of spaces, breaks and other bytes within the bound', 'Tests print a few help texts; words and breaks that meet the width exactly are not sampled.',
  'src/ProgramOptions.cpp', [('greedy wrapping with forced breaks', 'src/ProgramOptions.cpp')])
P('X01', 'A failed invariant is never passed and is reported in full',
  'Control passes an invariant exactly when its expression, evaluated once, holds; when it fails every hook registered since the last clearing is told the expression, file, line and message, once and in the order of registration, those before and those after the failure is shown, until one throws; otherwise the failure is shown in full and the program dies. A hook that fails itself or a message that cannot be formatted does not get past the failure, and assertion exceptions carry every byte of what failed.',
  'histories', 'all histories of hooks and invariants, messages, lines and conditions within the bounds', 'Tests try one hook at a time; histories of hooks that throw, malformed and long messages are not sampled.',
  'src/AssertBoost.cpp', [('hooks, recursion and the end', 'src/AssertBoost.cpp'), ('the invariant macros', 'include/Lintel/AssertBoost.hpp'), ('assertions as exceptions', 'src/AssertException.cpp')])
