ORACLE = {
'H01': 'A history of operations is chosen step by step (one path per kind and position), keys and data are symbolic, the hash functor is a symbolic pure function of the key, so the solver picks the collisions. After every step look-up, size and contents are compared with a plain list of entries; memory accesses and live allocations are checked by the memory model.',
'H02': 'The table is built by such a history, then walked; the multiset visited is compared with the list, with erasures, resets and partial resets at every point of the walk.',
'H03': 'As H01, against an association list; default values on first indexing, copies and assignments are part of the history.',
'H04': 'As H01, against a set with the representative first added.',
'H05': 'Against a reference of two generations of association lists, including what the rotation callback is handed and walks that remove.',
'H06': 'The output term is compared with an independent transcription of the published mixing function over the same symbolic bytes, for every length and alignment within the bound; equality is decided by the solver, and reads outside the given bytes by the memory model.',
'D01': 'Against a plain array of the elements pushed and not popped, with capacity and wrap position part of the history; iterator differences, offsets and comparisons against index arithmetic, every 64-bit offset in range.',
'D02': 'Elements count their constructions and destructions in a table indexed by object address; every end state must balance, with allocation failures injected.',
'Q01': 'Top is compared with the extremum of a reference multiset, contents with the multiset after draining, the internal verifier must agree; the order comes from symbolic priorities, so every tie is covered.',
'B01': 'Against a reference string of the bytes in the buffer, with symbolic contents and sizes; pointers handed out must be readable or writable for exactly the size promised.',
'B02': 'Each handle has its own reference string; any history of copies, writes, extensions and assignments over shared buffers must leave all of them equal to their references.',
'C01': 'Contents, identity of equal strings, addresses of strings interned earlier, and order are compared with std::string; lengths around the ends of the storage blocks are chosen.',
'P01': 'The cast must succeed exactly when the dynamic type chosen by the path matches, and be refused otherwise, for every pair of types of a hierarchy with multiple inheritance.',
'P02': 'The result is compared with the element-wise definition over ranges of symbolic elements and lengths.',
'S01': 'join of split and split of join over symbolic strings, compared bytewise with a reference scanner written from the documentation.',
'S02': 'Digits of a symbolic byte string are compared with the table of hex digits and converted back; any other byte, odd lengths included, must be refused.',
'S03': 'The escaped text is read back by an independent reader of SQL literals, which must see one literal with the original bytes.',
'S04': 'Output bytes must be printable and an independent unescaper must return the input.',
'S05': 'A row of converted fields goes through an independent RFC 4180 reader and must come back as the fields.',
'S06': 'Definition by positions for prefixes and suffixes; addresses against the four-octet arithmetic over all 2^32 addresses.',
'S07': 'Digit strings of symbolic length and digits against arbitrary precision evaluation, for every integer type.',
'S08': 'Every byte value against the tables of the C locale.',
'S09': 'strtod is a stand-in that consumes a symbolic part of the text and returns a symbolic value; accepted exactly when all is consumed.',
'E01': 'Decoding of encoding over symbolic bytes and lengths must be the identity; decoding arbitrary bytes must stay within the buffers (memory model).',
'E02': 'Codes of two symbolic strings are compared bytewise with the comparison of the strings; numbers against big-endian bytes.',
'M01': 'Every symbolic needle and haystack within the bound against the definition of the leftmost occurrence; both interfaces.',
'I01': 'The estimator returns a symbolic offset at every call; the result must be the lower bound by definition, within the range, and the search must end within a stated number of steps.',
'T01': 'Equality, less-than and hashes of tuples whose fields are symbolic values or wildcards: reflexivity, symmetry, transitivity, consistency.',
'T02': 'Against an association list from tuples to lists of values; walks in sorted and unsorted order must see each key once.',
'T03': 'For every pattern of wildcards the accumulated statistics are compared with those of the rows it covers, computed by hand.',
'N01': 'Relations between symbolic doubles (all bit patterns, NaN and infinities included) compared with the documented tolerance formula; reflexivity and symmetry.',
'V01': 'Counts, sums and extremes against the values added, whichever way split and merged; moments against the formula in the same arithmetic.',
'V02': 'Buckets must be consecutive equal spans of the sequence; each is compared with the statistic of its values under each merging rule.',
'V03': 'Each statistic is compared with the list of values that should have reached it; the name look-up with the longest-prefix definition over symbolic names.',
'V04': 'Sums of products of deviations computed as whole numbers; intervals by their limits; averages by the recurrence.',
'V05': 'Bin limits are computed by the harness; each count must equal the number of values inside, through every growth and rescale; any double is allowed for memory safety.',
'V06': 'The rank of the answer among all values added is counted and compared with the bound (W-C-1)/2 + w of Manku, Rajagopalan and Lindsay for the collapses that happened, and with the error asked for; weights must add up to the count; the linear search must agree with the binary one.',
'A01': 'Threads run each operation against each other under every schedule; the final value and the returned values must be those of some order of the operations. Inline assembly is recognised by its text and modelled instruction by instruction, a missing lock prefix makes two steps.',
'A02': 'Every schedule of readers and writers within the preemption bound: exclusion is an assertion inside the sections, entry of every waiter is the absence of deadlock.',
'L01': 'Every nesting of scopes up to the bound against the set of mutexes that should be held; levels that do not rise must be refused.',
'L02': 'Histories by one thread against a flag per mutex; two and three threads under every schedule, with lost updates and overlap as assertions.',
'L03': 'Every schedule of waiters and signallers: no deadlock when a signal was due, mutex held on return; the deadline handed to the C library is compared with exact arithmetic.',
'L04': 'Every schedule of start, run, join and destruction: run called once, value joined, signal mask as promised, misuse refused.',
'R01': 'Words compared with an independent transcription of MT19937 over a symbolic state, seed or key.',
'R02': 'The generator hands out symbolic words; ranges and the exact counting of words per result (unbiasedness) are decided over all of them; shuffles must be bijections from draws to permutations.',
'R03': 'Compared with the published recurrences over symbolic seeds; the memory the object is built in is symbolic, so a word read before it is set is a difference.',
'K01': 'Conversions compared with exact rational arithmetic in wider integers: nearest value, monotone, round trip.',
'K02': 'Counter and clock are stand-ins returning symbolic readings; the answer is compared with a reference of the documented rule, including which readings are made.',
'F01': 'System calls are stand-ins that return symbolic results, including short reads and failures at any point; arguments passed on, bytes delivered and refusals are asserted.',
'G01': 'A reference array of levels per name updated by every setting; option strings with symbolic digits; destinations record what they get; threads under every schedule within the preemption bound, with a scheduling point at every access to the registry pointer.',
'O01': 'The wrapped text is read line by line: every line fits, and undoing the breaks gives back the text.',
'X01': 'Two lists of hook kinds updated by the same operations; each hook checks what it is told and its turn, the stand-in for abort checks that all were called and the text shown; C library formatting is a stand-in with an argument list that is good for one pass.',
}
