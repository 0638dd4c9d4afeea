"""One entry per property: its text (properties.jsonl), how it is decided (MANIFEST.json, DESIGN.md)
and what its check runs (registry.PROPS).  gen.py writes the files from this."""
CAT = []


def P(id, title, statement, over, text, tests, files, mech, parts, rule, tech, design, assume=(), observe=(), floor=None, note='', **kw):
    CAT.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, tests=tests, files=files.split(), mech=mech, parts=parts, rule=rule,
                    tech=tech, design=design, assume=list(assume), observe=list(observe), floor=floor or {}, note=note, kw=kw))


def part(h, mode, quick, thorough, **kw):
    return dict(h=h, mode=mode, n=(quick, thorough), **kw)


NOTEST = 'No test of the repository that runs here touches it.'

# ------------------------------------------------------------------ libmy
P('L01', 'CRC32C is the Castagnoli CRC on every buffer, by every implementation',
  'The CRC32C of any buffer equals the bitwise definition of the Castagnoli CRC (reflected, initial value and final xor all-ones), whatever the length and the alignment of the buffer. The table-driven, the hardware and the automatically selected implementation agree on every input, and none of them touches memory outside the buffer or an address it may not use.',
  'inputs', 'buffers of 0 to a megabyte at every alignment modulo 16, all implementations',
  'The 15 stable vectors are short fixed buffers run through the selected implementation only; they visit few lengths, one alignment and never the implementation that the CPU does not pick.',
  'libmy/crc32c.c libmy/crc32c-slicing.c libmy/crc32c-sse42.c', [('slicing tables and tail loops', 'libmy/crc32c-slicing.c my_crc32c_slicing'), ('hardware loop with 64/32/8 bit steps', 'libmy/crc32c-sse42.c my_crc32c_sse42'), ('runtime selection', 'libmy/crc32c.c my_crc32c_runtime_detection')],
  [part('codec', 'crc32c', 240000, 3000000)], 'buffer content and alignment, lengths above zero', 'ASan+UBSan differential monitor against a bitwise CRC',
  'Every case draws a buffer (length, offset into an exactly sized heap block) and compares the three implementations with a bit-by-bit CRC written in the harness; ASan watches the red zones on both sides, UBSan the alignment of each load.')
P('L02', 'Base32 (extended hex) encodes and decodes exactly',
  'Encoding any byte string gives its RFC 4648 extended-hex base32 text without padding, and decoding that text in any letter case gives the bytes back. A text containing a character outside the alphabet is refused, an encoding that does not fit the destination is cut at the buffer, and nothing outside the given buffers is read or written.',
  'inputs', 'byte strings of 1 to some thousand bytes, every destination size up to the full text, decodings with every foreign character at every position',
  NOTEST, 'libmy/b32_encode.c libmy/b32_decode.c', [('five-bit regrouping', 'libmy/b32_encode.c base32_encode'), ('value table and refusal', 'libmy/b32_decode.c base32_decode')],
  [part('codec', 'base32', 1200000, 20000000)], 'byte string encoded', 'ASan+UBSan differential monitor against an RFC 4648 encoder',
  'An independent encoder that works on single bits gives the expected text; buffers are heap blocks of exactly the documented size.', ['the encoding of an empty input is not claimed'])
P('L03', 'Base64 round-trips through any split of the stream',
  'Feeding a byte string to the incremental base64 encoder in any sequence of pieces produces the same standard base64 text as encoding it at once, and decoding that text in any pieces and with any foreign characters between gives the bytes back. No call reads or writes outside the input and the size its output can have.',
  'inputs histories', 'byte strings with every split into pieces (also empty ones), line breaks and noise characters between, all 256 character values',
  NOTEST, 'libmy/b64_encode.c libmy/b64_decode.c', [('encoder state between calls', 'libmy/b64_encode.c base64_encode_block'), ('decoder state between calls', 'libmy/b64_decode.c base64_decode_block')],
  [part('codec', 'base64', 600000, 15000000)], 'byte string', 'ASan+UBSan differential monitor over split streams',
  'The oracle is an independent encoder; pieces are cut at random points so that every state of the incremental encoder and decoder is resumed (the distinct states seen are counted).')
P('L04', 'Variable-length integers are canonical and never read past their bytes',
  'Every 32 and 64 bit value encodes to its little-endian base-128 form of minimal length, the advertised length is that length, and decoding gives the value back. Measuring a packed integer inside a buffer reports its length, or zero when the buffer ends before the integer does, without reading beyond it.',
  'inputs', '32 and 64 bit values biased to the boundaries of each length, truncations at every length',
  NOTEST, 'libmy/varint.c', [('encoding and decoding loops', 'libmy/varint.c varint_encode32 varint_encode64 varint_decode32 varint_decode64'), ('bounded length', 'libmy/varint.c varint_length_packed')],
  [part('codec', 'varint', 1600000, 20000000)], 'value', 'ASan+UBSan differential monitor against an arithmetic encoder',
  'Expected bytes are computed arithmetically; packed integers sit at the end of exactly sized blocks, so a read past the end is an ASan report.')
P('L05', 'Hexadecimal and decimal text conversions are exact',
  'Bytes rendered as hexadecimal text and decimal rendering of unsigned numbers are the exact digits of the value, and parsing hexadecimal text gives the bytes back. Text with a character that is not a hexadecimal digit or with an odd number of digits is refused and leaves no result behind, and destination limits are respected.',
  'inputs', 'byte strings and numbers of all sizes, destinations of every size from one byte on, every foreign character',
  NOTEST, 'libmy/hex_decode.h libmy/my_format.c', [('digit parsing and refusal', 'libmy/hex_decode.h hex_decode'), ('digit rendering', 'libmy/my_format.c my_bytes_to_hex_str my_uint64_to_str')],
  [part('codec', 'text', 1200000, 15000000)], 'value rendered', 'ASan+UBSan differential monitor against printf', 'printf and a plain parser in the harness are the oracle; buffers are exact heap blocks.', ['a hexadecimal destination of zero bytes is not claimed'])
P('L06', 'Address prefix and range arithmetic is exact for every prefix length',
  'For every IPv4 and IPv6 address and every prefix length including zero and the full width, the lowest and highest address of the prefix are exactly the address with its host bits cleared or set, and incrementing or decrementing an address is arithmetic on the whole number modulo its width. The results agree with comparing addresses as big-endian numbers.',
  'inputs', 'IPv4 and IPv6 addresses with carry chains of every length, all prefix lengths 0–32 and 0–128',
  NOTEST, 'libmy/ip_arith.h', [('masks and carries', 'libmy/ip_arith.h ip4_lower ip4_upper ip6_lower ip6_upper ip4_incr ip6_incr')],
  [part('codec', 'ip', 1600000, 20000000)], 'address and prefix length', 'UBSan differential monitor against 128-bit arithmetic', 'The oracle does the arithmetic in unsigned __int128.')
P('L07', 'The lookup3 hashes are the published function',
  'The hash of any byte string, word array and pair of seeds equals the published lookup3 function, independent of the alignment of the input. No byte outside the input influences the result or is read beyond what its alignment allows.',
  'inputs', 'strings of 0 to 300 bytes at all alignments, all seeds',
  NOTEST, 'libmy/lookup3.c', [('aligned and bytewise bodies', 'libmy/lookup3.c my_hashlittle my_hashlittle2 my_hashword')],
  [part('codec', 'lookup3', 1200000, 15000000)], 'input string and seed', 'ASan+UBSan differential monitor against a bytewise lookup3', 'An independent bytewise implementation is the oracle; bytes around the input are varied between two evaluations.')
P('L08', 'String, time, number and byte-order helpers compute what they say',
  'Replacing a substring replaces every non-overlapping occurrence from the left and nothing else, time values add, subtract and compare like rational numbers with normalised fractions, and numbers from the environment or the byte-order helpers are the values their text or bytes denote. Text that is not a number is refused, and reading bytes from a descriptor gives all of them or fails. Signals that interrupt the reading or a sleep cut neither short.',
  'inputs', 'strings over small alphabets with overlapping matches and empty patterns, times around second boundaries and negative differences, numeric texts of all shapes',
  NOTEST, 'libmy/string_replace.h libmy/my_time.h libmy/getenv_int.h libmy/my_byteorder.h libmy/read_bytes.h', [('replacement loop', 'libmy/string_replace.h string_replace'), ('borrow and carry', 'libmy/my_time.h my_timespec_sub my_timespec_add my_timespec_cmp'), ('number parsing', 'libmy/getenv_int.h')],
  [part('codec', 'strings', 300000, 6000000)], 'the strings, times and numbers drawn', 'ASan+UBSan differential monitor against plain C++', 'Each helper is compared with a direct C++ computation (std::string scanning, 128-bit nanoseconds, strtoull).')
P('L09', 'The heap always yields the least element and keeps every element',
  'After any sequence of insertions, bulk additions, removals and replacements, the heap removes its elements in the order of the comparison function and gives back exactly the elements put in, each once. Looking at an element by index returns one of the contained elements, and asking an empty heap or a bad index for an element returns none.',
  'histories', 'random operation sequences of up to some thousand operations with many equal keys, followed by a full drain',
  NOTEST, 'libmy/heap.c', [('sift up and down', 'libmy/heap.c siftdown siftup heap_heapify heap_replace')],
  [part('cont', 'heap', 80000, 2000000)], 'operation sequence with the keys removed', 'ASan+UBSan history monitor against a multiset model', 'A std::multiset of (key, identity) is stepped with each operation; each removed element must be a minimum of the model and present in it.')
P('L10', 'Growable vectors and byte buffers hold exactly what was put in',
  'After any sequence of adding, appending, reserving, clipping, resetting, detaching and formatted printing, a vector or byte buffer holds exactly the elements put in, in order, with a size that matches. No operation reads or writes outside the storage it owns, whatever the element width.',
  'histories', 'operation sequences over element widths 1, 2, 4, 8 and a 24 byte structure and over string buffers with formatted output longer than the free space',
  NOTEST, 'libmy/vector.h libmy/ubuf.h libmy/ubuf-pb.h', [('capacity growth and pointer bump', 'libmy/vector.h VECTOR_GENERATE'), ('formatted append with retry', 'libmy/ubuf.h ubuf_add_fmt')],
  [part('cont', 'vector', 200000, 8000000)], 'operation sequence and element width', 'ASan+UBSan history monitor against a byte string model', 'The model is a std::string of the element bytes, compared in full after every operation.')
P('L11', 'Linked lists keep order and membership under any edit',
  'After any sequence of insertions at either end or beside an element, removals and concatenations, walking the list forward visits exactly the contained elements in order, walking backward visits the reverse, and emptiness, first and last element agree with that. No walk leaves the list or touches removed elements.',
  'histories', 'operation sequences on lists of up to some dozen elements',
  NOTEST, 'libmy/list.h', [('link updates', 'libmy/list.h ISC_LIST_APPEND ISC_LIST_UNLINK ISC_LIST_INSERTBEFORE')],
  [part('cont', 'list', 200000, 6000000)], 'operation sequence', 'ASan+UBSan history monitor against a vector model', 'A std::vector is the model; forward and backward walks are compared after each operation and removed elements are freed so that a stale link is an ASan report.')
P('L12', 'Balanced and splay trees behave as ordered sets',
  'After any sequence of insertions, removals and lookups, both tree kinds hold exactly the keys inserted and not removed, refuse a second equal key, and find, find-next, next, previous, minimum and maximum answer as for a sorted set. The balanced tree keeps its colour and depth invariants, so lookups stay logarithmic.',
  'histories', 'operation sequences with keys dense and sparse, ascending, descending and random',
  NOTEST, 'libmy/tree.h', [('recolouring and rotation', 'libmy/tree.h RB_INSERT RB_REMOVE'), ('splaying', 'libmy/tree.h SPLAY_INSERT SPLAY_REMOVE')],
  [part('cont', 'tree', 60000, 2500000)], 'operation sequence and tree kind', 'ASan+UBSan history monitor with structural invariant checks', 'A std::map is the model; for the balanced tree the harness also walks the nodes and checks the red-black rules and the parent links after every operation.')
P('L13', 'A bounded queue hands over every element once, in order, under any schedule',
  'With one producer and one consumer running concurrently, the elements removed from a bounded queue are exactly those inserted, each once, complete and in the order of insertion. An insertion is refused only when the queue is full and a removal only when it is empty, the remaining space reported is right, and the locking variant keeps this without data races for several producers and consumers.',
  'schedules histories', 'all queue variants and sizes; sequential histories; preemption after every single instruction of an operation; free-running threads; race detection on the locking variant',
  NOTEST, 'libmy/my_queue.c libmy/my_queue_mb.c libmy/my_queue_mutex.c libmy/my_memory_barrier.h', [('head and tail published after the element', 'libmy/my_queue_mb.c my_queue_insert my_queue_remove'), ('mutex around head and tail', 'libmy/my_queue_mutex.c')],
  [part('sys', 'queue', 15000, 600000), part('sys', 'qstep', 400, 20000, san='plain'), part('sys', 'qstress', 24, 1500, san='plain', chunk=3), part('sys', 'qmutex', 24, 1500, san='tsan', chunk=3)],
  'history, preemption point or run with the fill levels met', 'instruction-level preemption, thread stress and TSan with an exactly-once FIFO oracle',
  'Four monitors: a sequential model of fullness and order under ASan; single stepping with the CPU trap flag, which runs the other side between two instructions of an operation and compares with the two legal orders; two free threads exchanging numbered elements of several widths; the locking variant with several producers and consumers under TSan, judged by per-producer order and conservation.',
  ['lock-free variants are observed on x86 memory ordering only', 'single producer and single consumer for the lock-free variants, as documented'], jobs=4)
P('L14', 'A file set loads each listed file once and unloads each dropped one once',
  'After every reload the loaded files are exactly the existing files named in the list, each loaded once however often it is named, files that stay are kept without reloading, and files that left are unloaded exactly once. A list that did not change, is missing, or cannot be opened changes nothing, and an update missed because of such a failure is picked up by a later reload; destroying the set unloads everything once.',
  'histories fault_sequences', 'sequences of list rewrites with duplicates, missing members, relative and absolute names, list removal and failures to open it',
  NOTEST, 'libmy/my_fileset.c', [('sort, compare and carry over', 'libmy/my_fileset.c my_fileset_reload'), ('change detection', 'libmy/my_fileset.c setfile_updated')],
  [part('sys', 'fileset', 12000, 500000)], 'history of lists and the last list', 'ASan history monitor with injected open failures', 'Load and unload callbacks feed an online checker (exactly-once per file, never a load of a loaded file); fopen is wrapped to fail on chosen calls.',
  ['blank lines in the list are not claimed', 'a list written in place carries another modification time (one-second resolution); a list replaced by another file may keep it or carry an older one'])
P('L15', 'A spool directory hands each file to exactly one worker',
  'Every complete regular file that appears in a spool directory is handed out exactly once, to one worker thread only, moved out of the incoming directory with its content intact. A link to a regular file counts as one; hidden files, directories, pipes, sockets and dangling links are left alone, later arrivals are found, and this holds for any number of concurrent workers without data races.',
  'schedules inputs', 'directories of up to some hundred files with ordinary, hidden, foreign and pre-existing names, arrivals by rename while one to eight workers run',
  NOTEST, 'libmy/spooldir.c', [('claim by rename', 'libmy/spooldir.c spooldir_next')],
  [part('sys', 'spool', 12000, 400000), part('sys', 'spool', 800, 20000, san='tsan')], 'distribution of files over workers with their contents', 'ASan and TSan with an exactly-once oracle over worker logs', 'Every worker logs what it was given; the union must be the files put in, without repetition, with their content read back from the returned path.')
P('L16', 'The rate limiter holds its rate on average and never stops or lifts the limit',
  'A caller that asks for leave before each event performs close to the configured number of events per second as long as it is fast enough, and never substantially more over any window, even when its sleeps are interrupted or oversleep and its clock reads jitter. With a check frequency, each correction changes the rate by about one percent at most. A caller slower than the rate is never delayed noticeably.',
  'schedules inputs fault_sequences', 'rates from one to a million per second, all check frequencies, both sleep implementations, fast, bursty and slow callers, interrupted and late sleeps',
  NOTEST, 'libmy/my_rate.c libmy/my_time.h', [('sleep until the next tick', 'libmy/my_rate.c my_rate_sleep'), ('rate adjustment', 'libmy/my_rate.c adjust_rate')],
  [part('sys', 'rate', 60000, 2500000), part('sys', 'drift', 2, 2)], 'rate, frequency and caller behaviour', 'virtual-clock monitor of windowed event counts with injected sleep faults', 'Clock and sleeps are wrapped by a virtual clock, which makes hours pass in microseconds; an online checker counts the events in each second and over the run.',
  ['one stray tick per second is tolerated, as is a factor of 1.25 plus the check frequency when the caller checks only every so many events'])
P('L17', 'Thread numbers are unique and stable',
  'Every thread that registers gets a number that no other thread of the process gets and that stays the same at each request, whatever the interleaving of the registrations. The numbers count up from zero without gaps.',
  'schedules', 'groups of threads that register at once, and hundreds of threads one after another in one process',
  NOTEST, 'libmy/threadnum.c', [('counter under a lock, kept per thread', 'libmy/threadnum.c my_threadnum_register')],
  [part('sys', 'threadnum', 400, 8000, san='tsan', chunk=10)], 'order in which numbers were given', 'TSan with a uniqueness oracle', 'Threads released by a barrier ask several times; the numbers are compared at the end, TSan watches the shared counter.')
P('L18', 'Command lines are parsed into exactly the values given',
  'Parsing a well-formed command line stores in every option exactly the values the line gives, by short letter, cluster, long name, unambiguous abbreviation, attached or following value, argument file, environment or position, in all value types and operators, and reports which options were used. The value of an option is shown as text that says what it holds, cut to the buffer given. A line with an unknown or ambiguous option, a missing value, a malformed number or a surplus argument is refused, and an option table and arguments are never read or written beyond their ends.',
  'inputs programs', 'option tables of one to a dozen options of all types and flags with well-formed and broken lines made for them',
  NOTEST, 'libmy/argv.c libmy/argv.h', [('queue of options waiting for values', 'libmy/argv.c do_list string_to_value'), ('name matching', 'libmy/argv.c do_long')],
  [part('argv', 'parse', 250000, 6000000), part('argv', 'hostile', 60000, 1000000)], 'option table and command line', 'ASan+UBSan monitor against a reference interpretation by construction', 'Lines are built from the values they are to set, so the expected result is known; the harness compares every variable and the used marks.',
  ['a name that is also the prefix of another is not abbreviated', 'numbers fit their type', 'a string option given twice keeps its last value'])
P('L19', 'Any command line is handled without memory errors',
  'Parsing, printing usage, copying, converting to text and freeing behave defined and terminate for every command line and every option table, including nonsense arguments, empty strings, repeated markers, unfinished options and recursive argument files.',
  'inputs programs', 'arguments from fragments of real syntax and arbitrary bytes against option tables of all types',
  NOTEST, 'libmy/argv.c', [('bounds of the option table and value queue', 'libmy/argv.c')],
  [part('argv', 'hostile', 350000, 10000000), part('argv', 'parse', 60000, 1000000)], 'command line', 'ASan+UBSan hostile-input monitor', 'Random tables and random argument fragments; the oracle is the sanitizers, a CPU limit and the documented return codes.', ['numbers beyond the range of their type are not generated (signed overflow in the converters)'])
P('L20', 'Zone files are read record by record, complete and in order',
  'Reading a zone file, plain or compressed, yields exactly its records in order with the owner names, types and data the text gives under the origin and default lifetimes in force, and reports the zone name, serial number and count. A file without a usable zone, or one that cannot be opened, is refused without leaking or looping.',
  'inputs', 'zone files of up to 70 000 records with relative and absolute owners, origin and lifetime directives, comments, multi-line records and hostile file names; files that are empty, truncated or not zones',
  NOTEST, 'libmy/zonefile.c', [('record loop over the parser', 'libmy/zonefile.c zonefile_read'), ('opening plain and compressed files', 'libmy/zonefile.c zonefile_init_fname')],
  [part('zone', 'body', 15000, 500000), part('zone', 'refuse', 3000, 60000)], 'zone text', 'ASan+UBSan monitor against records by construction', 'Zone texts are rendered from a list of records, so the expected sequence is known; each record is compared in wire form, allocation is measured over a second run for leaks.',
  ['reading on after the end of the zone is not claimed', 'the ldns library parses the single record'])
P('L21', 'Atomic counters lose no update and report each crossing once',
  'Whatever the interleaving of threads, an atomic counter ends at its start value plus everything added and minus everything subtracted, modulo its width; values taken out by resetting it to zero and the value left sum to what was put in; and of the operations that test for zero or for a negative result exactly those say yes whose own result was zero or negative. A 64 bit counter accepts and returns 64 bit values. A shared pointer always reads as one that was stored.',
  'schedules', 'two to six threads that start together with random operations, operands at the edges of the width and random yields; all operations in one thread against plain arithmetic',
  NOTEST, 'libmy/atomic.h libmy/atomic_64.h libmy/atomic_ptr.h', [('single read-modify-write instruction per operation', 'libmy/atomic.h libmy/atomic_64.h'), ('compare and swap', 'libmy/atomic_ptr.h atomic_ptr_set')],
  [part('sys', 'atomseq', 150000, 6000000), part('sys', 'atomrun', 2500, 60000, chunk=50), part('sys', 'atomrun', 600, 20000, san='tsan', chunk=25)], 'results each thread saw', 'TSan and ASan builds with a conservation monitor', 'Each thread keeps its own sums and yes answers; at the end they are compared with the counter. TSan reports any access that is not atomic.')

P('L22', 'Basic routines stop or fail cleanly when memory cannot be had',
  'When a request for memory of a container, conversion, queue, file set, rate limiter or option routine is refused, once or from then on, either the program stops at once with an assertion, or the call fails and can be made again, or the result is the same as without the refusal: never a crash through a null or stale pointer, never a wrong result, never an endless loop.',
  'fault_sequences', 'one random session of calls; in it one request for memory (or that and all later ones) is refused, up to eight times at requests from different places of the code',
  NOTEST, 'libmy/my_alloc.h libmy/vector.h libmy/ubuf.h libmy/heap.c libmy/hex_decode.h libmy/string_replace.h libmy/my_fileset.c libmy/my_queue_mb.c libmy/my_queue_mutex.c libmy/my_rate.c libmy/argv.c', [('asserting allocators', 'libmy/my_alloc.h my_malloc my_calloc my_realloc my_strdup'), ('growth of vectors', 'libmy/vector.h'), ('argument arrays', 'libmy/argv.c argv_cleanup')],
  [part('oom', 'libmy', 1500, 30000)], 'session and refused request', 'fault injection at every allocation with an outcome oracle, ASan+UBSan', 'All allocation calls of the code are replaced at compile time; a first run numbers the requests and their call sites, then a forked child repeats the session with one refused. Its end (assertion, crash, hang) and the results it saw are compared with the first run.', ['allocations inside other libraries succeed', 'zone files and spool directories are not part of the sessions'])

# ------------------------------------------------------------------ dnstable
DBGEN = 'databases of 1 to 6 generated files (now and then up to 40 files, or 500 keys in a file) over a shared population of names (any bytes, labels of 1 to 63, names up to 255 bytes, wildcard look-alikes, mixed case, the root) and record types (indexed, sliced, unknown), record data from nothing to 64 KB, rrsets of up to 400 records, times over the whole 64 bit range'
P('D01', 'No content of a database causes undefined behaviour',
  'Whatever bytes the keys and values of a file hold, decoding an entry, reading any of its fields, rendering it as text or JSON, iterating over a reader and running any query returns success or failure and terminates: no read outside a key or value, no other undefined behaviour, no failed assertion. A query over a damaged file returns only entries that are in the file, and intact entries are still found among damaged ones.',
  'inputs', 'random and mutated keys and values (cut, extended, changed, oversized lengths, every key type), files mixing intact and damaged entries, all query types',
  NOTEST, 'dnstable/entry.c dnstable/query.c dnstable/query_mtbl.c dnstable/reader.c dnstable/triplet.c', [('entry decoding', 'dnstable/entry.c dnstable_entry_decode'), ('query filters over raw keys', 'dnstable/query.c'), ('type sets', 'dnstable/entry.c rrtype_test rrtype_union_check')],
  [part('dec', 'hostile', 50000, 4000000), part('qry', 'hostile', 5000, 300000)], 'key and value, or query text', 'ASan+UBSan over generated hostile content with an outcome oracle',
  'Keys and values are exactly sized heap blocks freed at the next step of the iterator, so that any read past or after them is a report; asserts stay enabled. Damaged files are built from generated intact ones, so the oracle knows which entries must still be found.', ['index entries (names) may be the damaged part, so left (rdata) and right (rrset) wildcard queries on damaged files are only checked for soundness', 'one file at a time: merging damaged values of several files is not claimed'])
P('D02', 'Entries decode to the fields their bytes say',
  'A well-formed key and value of each entry type decodes to exactly the owner name, bailiwick, type, record data in order, times, count, source text, version and set of types that the encoding document defines; a getter for a field the entry type does not have fails, and an index outside the record data fails. A byte string that is not a well-formed entry of a known type is refused as a whole.',
  'inputs', 'well-formed entries of all types with every shape of name, data and number; mutations judged by an independent parser',
  NOTEST, 'dnstable/entry.c dnstable/triplet.c', [('per-type decoders', 'dnstable/entry.c decode_rrset decode_rdata decode_rrset_name_fwd decode_rdata_name_rev decode_version decode_val_triplet'), ('accessors', 'dnstable/entry.c dnstable_entry_get_*')],
  [part('dec', 'decode', 150000, 8000000)], 'key and value', 'ASan+UBSan differential monitor against an independent encoder and parser',
  'Entries are generated from their fields with an encoder written from man/dnstable-encoding.5, decoded, and every getter compared; a parser written from the same document judges the mutations.')
P('D03', 'The text form of an entry is complete and reads back',
  'The text form of an entry holds exactly its fields: names and record data in DNS presentation form, one line per record, times as calendar dates in the comment lines for record sets, in the documented layout for each entry type; a type set that cannot be read is shown as a failure. Reading the presentation forms back gives the names, types and data of the entry.',
  'inputs', 'well-formed entries of all types, all name bytes, known and unknown types',
  NOTEST, 'dnstable/entry.c', [('text rendering', 'dnstable/entry.c dnstable_entry_to_text_fmt'), ('date rendering', 'dnstable/entry.c fmt_time')],
  [part('dec', 'text', 60000, 3000000)], 'key and value', 'ASan+UBSan differential monitor over rendered text',
  'The expected text is composed in the harness from the generated fields with its own date arithmetic.', ['presentation of record data is that of the stand-in DNS library'])
P('D04', 'The JSON form of an entry is valid JSON and holds exactly its fields',
  'Every rendering of an entry as JSON, with every combination of formatter options (always arrays, raw rdata, RFC 3339 dates), is one valid JSON object; its members are the fields of the entry under their documented names, strings unescape to the exact text, numbers are exact over the whole 64-bit range where JSON integers allow it, a date that RFC 3339 cannot express is the number, and a single record is a string or a one-element array as the options say.',
  'inputs', 'well-formed entries of all types, all name bytes, all option combinations, times up to the largest representable date and beyond',
  NOTEST, 'dnstable/entry.c dnstable/dnstable-json.h', [('JSON rendering', 'dnstable/entry.c dnstable_entry_to_json_fmt'), ('options', 'dnstable/entry.c dnstable_formatter_set_*')],
  [part('dec', 'json', 6000, 500000)], 'key and value', 'ASan+UBSan with a strict JSON parser as oracle',
  'A strict JSON parser in the harness reads the output; members are compared with the generated fields.', ['presentation of record data is that of the stand-in DNS library', 'counts above the signed 64-bit range are not claimed'])
P('D05', 'A record set query returns exactly the matching record sets',
  'A query for record sets by owner name, exact or with a leading or trailing * (any number of labels) or + (one label) wildcard, optionally with a record type and a bailiwick, returns every matching record set of all files exactly once with its times and counts merged, and nothing else. Names match without regard to letter case unless the query is case sensitive, whatever the spelling of name, type and bailiwick and the order in which the parameters were set.',
  'inputs', DBGEN + '; queries by derived names, wildcards, types, bailiwicks',
  NOTEST, 'dnstable/query.c dnstable/query_mtbl.c dnstable/reader.c', [('key construction and wildcard handling', 'dnstable/query.c query_init_rrset query_init_rrset_left_wildcard query_init_rrset_right_wildcard'), ('filters', 'dnstable/query.c filter_rrtype filter_bailiwick filter_single_label')],
  [part('qry', 'rrset', 30000, 600000), part('qry', 'params', 10000, 100000), part('mrg', 'follow', 2000, 50000)], 'query', 'ASan+UBSan with an exact result oracle over a model database',
  'The model computes from the generated records which rows the answer must hold; rows are compared as multisets, each with its times, count and data.')
P('D06', 'An rdata name query returns exactly the records pointing at the name',
  'A query for records by the domain name in their data returns, for exact names and leading and trailing * and + wildcards, every record of a type that holds a name there (also behind a preference or the fields of SRV, SVCB and HTTPS) whose name matches, exactly once with its full record data, and no record in which the bytes of the name merely occur elsewhere. A record type restricts the answer to that type.',
  'inputs', DBGEN + ' biased to types with names; exact and wildcard queries with and without a type',
  NOTEST, 'dnstable/query.c dnstable/query_mtbl.c', [('name queries', 'dnstable/query.c query_init_rdata_name query_init_rdata_left_wildcard query_init_rdata_right_wildcard'), ('sliced keys', 'dnstable/query.c rdata_is_sliced filter_rrtype_rdata_name')],
  [part('qry', 'rname', 25000, 600000), part('qry', 'params', 10000, 100000), part('mrg', 'follow', 2000, 50000)], 'query', 'ASan+UBSan with an exact result oracle over a model database',
  'As for record set queries; types whose names are not indexed for left wildcards (NSEC, RP, NXT) may or may not be returned by them.', ['for a type without a name in its data, asked for by type, only results starting with the bytes of the name are required'])
P('D07', 'An address query returns exactly the addresses in the range',
  'A query for an IPv4 or IPv6 address, a prefix of any length or a range between two addresses returns exactly the A or AAAA records whose address lies in it, each once, and no record of another type or length whose bytes fall into the range; text that is not an address, prefix or range is refused.',
  'inputs', 'databases with dense neighbouring addresses and records of other types that look like them; all prefix lengths, ranges across carries, from the lowest to the highest address',
  NOTEST, 'dnstable/query.c libmy/ip_arith.h', [('range parsing', 'dnstable/query.c query_set_data_rdata_ip'), ('range iteration with seeks', 'dnstable/query.c filter_rrtype_ip query_init_rdata_ip')],
  [part('qry', 'rip', 12000, 400000), part('qry', 'dense', 10000, 400000), part('qry', 'params', 10000, 100000)], 'query', 'ASan+UBSan with an exact result oracle over a model database',
  'The dense mode builds keys whose bytes around the address look like other addresses, types and labels, so that seeking inside the range is exercised at every alignment.')
P('D08', 'A raw rdata query returns exactly the records starting with the bytes',
  'A query by hexadecimal bytes returns every record (and sliced index entry) whose data starts with them, exactly once per entry, of the given type if there is one, and nothing else.',
  'inputs', DBGEN + '; whole, cut, extended and sliced record data as query',
  NOTEST, 'dnstable/query.c', [('raw queries', 'dnstable/query.c query_init_rdata_raw'), ('hexadecimal parameter', 'dnstable/query.c dnstable_query_set_data')],
  [part('qry', 'rraw', 30000, 600000), part('qry', 'params', 10000, 100000)], 'query', 'ASan+UBSan with an exact result oracle over a model database',
  'As for record set queries; the prefix relation is defined over the whole entry key, as the encoding implies.')
P('D09', 'Time fences return exactly what they admit, over any set of files',
  'A query with bounds on first and last seen times returns an aggregated entry exactly if its merged times satisfy every bound, with the merged times and the full count over all files, and an unaggregated entry exactly if its own times do, whatever the overlap of the files and whatever files the time ranges allow to skip. Files without a time range are never skipped.',
  'inputs', 'file sets of 1 to 5 files with overlapping periods, with and without time range entries, bounds at, just before and after the times of files and entries, any of the fifteen combinations of bounds',
  NOTEST, 'dnstable/query.c dnstable/query_mtbl.c dnstable/reader.c', [('file selection by time range', 'dnstable/query.c reader_time_filter dnstable_query_iter_fileset'), ('left join and removal', 'dnstable/query_mtbl.c ljoin_iter_next remove_iter_next'), ('entry filter', 'dnstable/query.c filter_time_common')],
  [part('qry', 'time', 25000, 600000)], 'query', 'ASan+UBSan with an exact result oracle over a model database',
  'Bounds are drawn next to the times of files, entries and merged entries, so that every fence cuts at a boundary.')
P('D10', 'Aggregation neither loses nor invents observations',
  'For every query over a file set, the aggregated answer and the unaggregated answer name the same entries, and each aggregated entry has the earliest first time, the latest last time and the sum of the counts of the unaggregated ones.',
  'inputs', DBGEN + '; all query types', NOTEST, 'dnstable/query.c dnstable/query_mtbl.c dnstable/merge.c', [('merging iterator', 'dnstable/query.c dnstable_query_iter_fileset dnstable/merge.c dnstable_merge_func'), ('unaggregated file sets', 'dnstable/query.c dnstable_dupsort_func')],
  [part('qry', 'aggr', 25000, 500000), part('mrg', 'merge', 15000, 300000), part('mrg', 'unions', 2000, 60000)], 'query', 'metamorphic conservation monitor over pairs of answers, ASan+UBSan',
  'Independent of the result oracle: both answers come from the code, the conservation law relates them.')
P('D11', 'An offset skips exactly that many results',
  'A query with offset k returns the results of the same query without offset except the first k, in the same order, for every k up to and beyond the number of results, and also when the query object is run again or its offset is changed in between.',
  'inputs histories', DBGEN + '; offsets from zero to the largest number', NOTEST, 'dnstable/query.c', [('offset counter', 'dnstable/query.c query_iter_next')],
  [part('qry', 'offset', 8000, 250000)], 'number of results and offset', 'metamorphic monitor over offsets, ASan+UBSan',
  'The answer without offset is the reference; the same query object is reused with every offset and twice with each.')
P('D12', 'A timeout interrupts promptly and loses nothing',
  'With a timeout or deadline a step of a query returns the timeout result only once the time is over, does only a bounded amount of further work after that, and a caller who allows more time, or lifts the limit, and goes on receives in total exactly the results of the same query without limit, in the same order, none lost and none twice.',
  'inputs schedules histories', 'virtual clock advancing with each step of the store by amounts from far below to far above the limit; relative, absolute and both limits, set, changed and lifted in any order before and between the steps; repeated timeouts',
  NOTEST, 'dnstable/query.c dnstable/query_mtbl.c libmy/my_time.h', [('deadline checks', 'dnstable/query.c query_iter_next dnstable/query_mtbl.c'), ('resumption', 'dnstable/query.c dnstable/query_mtbl.c')],
  [part('qry', 'timeout', 30000, 500000)], 'results and interruptions', 'fault injection (timeouts at chosen steps under a virtual clock) with a resume oracle, ASan+UBSan',
  'clock_gettime is wrapped by the linker; the stand-in store advances the clock at each seek and next, so the timeout can fall at any step of any loop. The work after the deadline is counted in steps of the store.', ['the bound on work after the deadline is eight steps per file, chosen well above what is needed'])
P('D13', 'Merging two values of a key neither loses nor invents information',
  'The merge function gives, for the values of one key, the sum of the counts, the earliest first and the latest last time (record sets and rdata), the enclosing period (time ranges) or the lowest version (versions); an empty value that cannot be known absorbs. The result does not depend on the order or grouping of the merges, and querying one merged file gives the same answers as querying the set of files it was made from.',
  'inputs histories', 'folds of 2 to 7 values of every entry type in random order and grouping, numbers at every varint length; databases of 2 to 5 files merged pairwise in random order',
  NOTEST, 'dnstable/merge.c dnstable/triplet.c', [('merge function', 'dnstable/merge.c dnstable_merge_func'), ('packing', 'dnstable/triplet.c triplet_pack pair_pack')],
  [part('mrg', 'merge', 60000, 3000000), part('mrg', 'files', 6000, 300000), part('mrg', 'unions', 3000, 100000)], 'values', 'ASan+UBSan with algebraic laws and a value oracle; metamorphic comparison of merged file and file set',
  'Each fold is computed twice over independent random trees of merges and compared with the expected value; the files mode runs random queries against both forms of the same data.', ['counts whose sum exceeds 64 bits and values that are not well-formed are not generated'])
P('D14', 'A set of record types is merged, shown and followed exactly',
  'The set of record types kept with a name is, after any sequence of merges, the union of the sets merged, where the empty value means every type; the entry shows exactly its members, and a wildcard query restricted to a type follows the names that may have it and skips those that do not.',
  'inputs', 'sets from one type to all 65536, in every encoding (single byte, two bytes, bit map windows) and their unions',
  NOTEST, 'dnstable/merge.c dnstable/entry.c dnstable/query.c', [('union of bit maps', 'dnstable/merge.c merge_rrtype_bitmaps'), ('membership', 'dnstable/entry.c rrtype_test'), ('expansion', 'dnstable/entry.c rrtype_union_unpack')],
  [part('mrg', 'unions', 8000, 600000), part('mrg', 'follow', 6000, 400000), part('mrg', 'files', 2000, 100000)], 'set of types', 'ASan+UBSan with a set oracle',
  'An independent encoder and decoder of the sets; membership is observed by wildcard queries over single-name databases.')
P('D15', 'Results come in the order of their keys',
  'The results of a query come in ascending order of their keys, names of a wildcard query answered by an index in the order of the index first, and the unaggregated entries with the same key in the order of first and then last times, whatever the number of files and the order they are listed in.',
  'inputs schedules', DBGEN + '; all query types, aggregated or not; ties between files broken at random by the store', NOTEST, 'dnstable/query.c', [('order of equal keys', 'dnstable/query.c dnstable_dupsort_func'), ('index driven queries', 'dnstable/query.c query_iter_next_name_indirect')],
  [part('qry', 'order', 25000, 500000)], 'query', 'sequence monitor against the model order, ASan+UBSan',
  'The model sorts its expected rows by index and key; the answer must be that sequence row by row.')
P('D16', 'Readers and metadata queries give the whole database, each section exactly',
  'Iterating over a reader yields every entry once, merged over all files, and the iterators over a section yield exactly the entries of that section; queries for the time range, the sources and the versions give the same as the iterators, for a single file and for a set, and the version of one section is found by its name.',
  'inputs', DBGEN + ' with and without time ranges, sources and versions', NOTEST, 'dnstable/reader.c dnstable/query.c', [('section iterators', 'dnstable/reader.c reader_iter_prefix'), ('metadata queries', 'dnstable/query.c query_init_time_range query_init_source_info query_init_version')],
  [part('qry', 'readers', 30000, 500000), part('mrg', 'files', 2000, 100000)], 'database', 'ASan+UBSan with an exact result oracle over a model database', 'The expected contents of each section follow from the generated files.')
P('D17', 'Query statistics account for every file, merge and entry',
  'After a query the counters that exist are the ones the stages of that query can have; every file of the set is accounted for once, by the stage that reads it, sets it aside or removes its entries; merges counted are merges done, each by the stage that did it; entries skipped by the offset are counted; and along the pipe of a query without seeks the entries filtered plus the entries returned are the entries under its prefix. Asking for a counter that does not exist says so.',
  'inputs', DBGEN + '; all query types with and without time fences, offsets and aggregation', NOTEST, 'dnstable/query.c dnstable/query_mtbl.c dnstable/iter.c dnstable/util.c', [('counters', 'dnstable/query.c query_iter_get_count'), ('stage counters', 'dnstable/query_mtbl.c filter_mtbl_get_counter ljoin_mtbl_get_counter remove_mtbl_get_counter')],
  [part('qry', 'stats', 25000, 300000)], 'query', 'conservation monitor over counters, ASan+UBSan', 'The stand-in store counts its own seeks and merges; these and the model are compared with the counters.', ['entries passed over by seeks are not counted by the code, so balance is demanded only of queries that do not seek'])
P('D18', 'Parameters mean what was set last, and refusals say why',
  'After any sequence of calls setting, changing, clearing and wrongly setting the parameters of a query, running it gives the answer of a fresh query with the parameters in force; every value that is not a name, address, prefix, range, hexadecimal string, record type or version name is refused with a message about this refusal, not about an earlier one, and leaves the query usable.',
  'histories inputs', 'histories of 5 to 40 calls on one query object with valid and invalid values, running the query in between', NOTEST, 'dnstable/query.c', [('parameters', 'dnstable/query.c dnstable_query_set_data dnstable_query_set_rrtype dnstable_query_set_bailiwick dnstable_query_set_filter_parameter'), ('messages', 'dnstable/query.c query_set_err')],
  [part('qry', 'params', 50000, 400000)], 'calls', 'model-based history monitor, ASan+UBSan', 'The model keeps the parameters in force; the answer is judged by the exact result oracle.', ['a query whose data was never set is not run', 'what a refused value leaves of the earlier value of the same parameter is not claimed'])
P('D19', 'Threads using the library independently do not disturb each other',
  'Threads that run queries at the same time, over one shared reader of a file or over readers of their own, format entries, read counters and receive error messages get exactly the answers they get alone, without a data race.',
  'schedules', '2 to 4 threads, each a program of queries of all types over the same data, with yields at random steps of the store', 'Tests run one thread.', 'dnstable/query.c dnstable/reader.c dnstable/entry.c dnstable/query_mtbl.c', [('shared reader', 'dnstable/reader.c dnstable_reader_query'), ('formatting', 'dnstable/entry.c')],
  [part('thr', 'threads', 10000, 200000, san='tsan')], 'threads', 'ThreadSanitizer race detection plus an exact result oracle under injected yields', 'Every answer is judged by the oracle and compared with the same program run alone.', ['the stand-in store is thread safe for readers, as the real one documents', 'one reader over a set of files is not shared between threads (it reloads)'])
P('D20', 'A reader over a list of files follows the list; running iterators keep theirs',
  'A reader over a set file answers from exactly the files listed when it was made or last reloaded; a reload takes in added files and drops removed ones, and an iterator made before the reload still answers from the files of its time. An iterator of a reader gives every entry of its kind that can be decoded, also after ones that cannot.',
  'histories', 'sequences of list changes, reloads, queries and iterations over 2 to 5 files', NOTEST, 'dnstable/reader.c', [('reload', 'dnstable/reader.c dnstable_reader_reload_setfile'), ('source of the reader', 'dnstable/reader.c dnstable_reader_init_setfile')],
  [part('qry', 'reload', 20000, 300000), part('qry', 'readers', 8000, 80000), part('qry', 'hostile', 2000, 80000)], 'history', 'model-based history monitor with an exact result oracle, ASan+UBSan', 'The model is the subset of files currently in force.', ['the file set itself is a stand-in with the documented reload behaviour'])
P('D21', 'dnstable_lookup prints exactly the answer it was asked for',
  'dnstable_lookup, for every combination of options and every way to write a time, prints exactly the matching entries in order and in the chosen format, reports their number, and exits with status 0; with a timeout it stops in time after a first part of them, an interval for statistics loses and repeats nothing, and the statistics are the counters of the query; an argument it cannot use ends it with a message, status 1 and no result.',
  'inputs', DBGEN + ' written to files, with one file or a set file; all query forms, formats, offsets, aggregation, absolute and relative times, strict times; timeouts and intervals against a clock that follows the steps of the store; invalid arguments of every kind', NOTEST, 'src/dnstable_lookup.c', [('options', 'src/dnstable_lookup.c main'), ('times', 'src/dnstable_lookup.c parse_time'), ('output', 'src/dnstable_lookup.c do_dump')],
  [part('cli', 'lookup', 2500, 100000), part('cli', 'timing', 500, 20000), part('cli', 'badlookup', 1200, 40000)], 'command line', 'process-level differential monitor with ASan+UBSan builds of the tool', 'The tool runs as a process on files written by the stand-in store; the expected output is composed from the model. Relative times are chosen half way between the times of entries, so that the second at which the tool reads the clock does not matter. For timeouts the monotonic clock of the tool is replaced at link time; the monitor checks how many steps of the store follow the timeout, that the output is a first part of the untimed output, and the times and counts of every block of statistics.', ['a time of zero, before 1970 or not a time is refused'])
P('D22', 'dnstable_dump prints exactly the section it was asked for',
  'dnstable_dump prints every entry of the chosen section of a file in key order in the chosen format and exits with status 0; conflicting options, a missing section or an unreadable file end it with a message, a failing status and no output.',
  'inputs', DBGEN + '; all sections, text, JSON and raw; invalid combinations', NOTEST, 'src/dnstable_dump.c', [('sections and options', 'src/dnstable_dump.c main')],
  [part('cli', 'dump', 2500, 100000)], 'command line', 'process-level differential monitor with ASan+UBSan builds of the tool', 'As for dnstable_lookup.')
P('D23', 'dnstable_merge makes one file of all its inputs',
  'dnstable_merge, given any number of input files in any order and with any names, writes one file with every key of the inputs exactly once and the merged value for each, and fails if there are too few arguments.',
  'inputs', '1 to 5 generated files with overlapping keys, names with spaces and wildcard characters', NOTEST, 'src/dnstable_merge.sh.in dnstable/merge.c', [('wrapper', 'src/dnstable_merge.sh.in'), ('merge function loaded by the merge tool', 'dnstable/merge.c dnstable_merge_func')],
  [part('cli', 'mergetool', 3000, 30000)], 'command line', 'process-level differential monitor with ASan+UBSan builds', 'The wrapper runs with a stand-in merge tool that loads the library and calls its merge function; the output file is compared key by key with the model.', ['the merge tool itself is a stand-in'])
P('D24', 'Every object gives back what it took',
  'A session that makes readers, queries, iterators, entries and formatters, uses them in any way including failed calls, early ends, timeouts and invalid parameters, and destroys them leaves no memory, iterator, source, merger or file set behind.',
  'histories', 'random sessions over 1 to 4 files; decoding and rendering of valid and damaged entries', NOTEST, 'dnstable/query.c dnstable/query_mtbl.c dnstable/reader.c dnstable/entry.c dnstable/iter.c', [('iterator teardown', 'dnstable/query.c query_iter_free'), ('wrappers', 'dnstable/query_mtbl.c *_free'), ('entries', 'dnstable/entry.c dnstable_entry_destroy')],
  [part('qry', 'life', 12000, 600000), part('dec', 'leaks', 20000, 1000000)], 'session', 'allocation balance monitor (allocated bytes and live store objects before and after), ASan+UBSan', 'Each session runs twice with the same seed; the second run must leave allocation and the live object counters of the store as it found them.')
P('D25', 'Filtering an entry by a query agrees with running the query',
  'dnstable_query_filter passes an entry exactly if its type, bailiwick and times satisfy the parameters of the query, refuses to judge a bailiwick the entry does not have, and never stops an entry the query itself returns.',
  'inputs', DBGEN + '; all query types with types, bailiwicks and time fences', NOTEST, 'dnstable/query.c', [('filter', 'dnstable/query.c dnstable_query_filter filter_time_common filter_bailiwick filter_rrtype')],
  [part('qry', 'qfilter', 50000, 800000)], 'query and entry', 'ASan+UBSan differential monitor against the model', 'Every entry of a generated file is put to every query.')
P('D26', 'Names of entry types, stages and categories convert both ways',
  'Each entry type, statistics stage and category has one name, which converts back to it (names of stages and categories in any letter case, names of entry types exactly), and every other string or number is refused.',
  'inputs', 'all values, all names, mutations of names and arbitrary numbers', NOTEST, 'dnstable/entry.c dnstable/util.c', [('entry types', 'dnstable/entry.c dnstable_entry_type_to_string dnstable_entry_type_from_string'), ('statistics', 'dnstable/util.c')],
  [part('dec', 'strs', 150000, 2000000)], 'string', 'ASan+UBSan round trip monitor', 'The harness holds the documented names.')
P('D27', 'The shared library exports every function under its release, and nothing else',
  'The shared library, linked with its version script, resolves every function of the public header under the release it first came with, so that programs linked against any earlier release keep running; it exports no other symbol, and a program that calls it through these symbols gets the same answers as one that has the library linked in.',
  'programs', 'all functions of the interface with their versions; queries of all types over set files of 1 to 3 generated files, run through the loaded library and through the linked one', NOTEST, 'dnstable/libdnstable.sym dnstable/dnstable.h dnstable/reader.c dnstable/query.c dnstable/iter.c dnstable/entry.c', [('version script', 'dnstable/libdnstable.sym'), ('interface', 'dnstable/dnstable.h')],
  [part('cli', 'library', 3000, 60000)], 'query', 'process-level monitor of the loaded library against the linked one, ASan+UBSan', 'The library is loaded with dlopen; each function is looked up under its version, the dynamic symbol table is read for anything else, and the answers of both copies are compared. If the check program cannot even be built because a published function is gone, that is reported as a violation too.', ['the library is linked by the check with the version script, not by automake'], api=True)
P('D28', 'Each stage of a query yields exactly its set, from wherever it is asked',
  'Left join, filter, removal and timeout each present a source that holds exactly what its definition says of the sources below it: the pairs of the left source with the values of common keys merged, the pairs the filter accepts, the pairs whose keys no removed source has, all pairs before the deadline. This holds for full walks, single keys, prefixes and ranges, for stages stacked in any order, and after any mix of steps and seeks forward and back, also after the end was reached. The counters of a stage say how many pairs were merged or dropped, and an iterator gives back all it took.',
  'histories', 'stacks of one to four stages in any order over tables of up to 40 keys with much overlap and empty tables; filters that skip ahead by themselves or give up; four ways of opening; up to 90 steps and seeks',
  NOTEST, 'dnstable/query_mtbl.c dnstable/dnstable-private.h', [('join over two cursors', 'dnstable/query_mtbl.c ljoin_iter_next'), ('lazily opened cursors of removed sources', 'dnstable/query_mtbl.c match_key remove_iter_seek'), ('filter loop', 'dnstable/query_mtbl.c filter_iter_next')],
  [part('stage', 'stage', 60000, 3000000)], 'stage stack with the steps and seeks', 'ASan+UBSan history monitor against set arithmetic', 'The contents of every stage are computed with std::map when the stack is built; each pair handed out and each end is compared with them, the live counters of the table stand-in show leaks, and its iterators free what they handed out at the next step so that ASan sees any stale use.',
  ['the table library is a stand-in'])
P('D29', 'Queries, entries and merging stop or fail cleanly when memory runs out',
  'When a request of a reader, query, query stage, entry, formatter or merge function for memory is refused, once or from then on, either the program stops at once with an assertion, or the call fails and the same work done again afterwards gives the right answer, or the answer is the same as without the refusal: never a crash through a null or stale pointer, never a wrong or shortened answer reported as complete, never an endless loop.',
  'fault_sequences', 'one random session (queries of all types with filters and timeouts over generated databases, entries decoded and rendered, values merged); in it one request for memory (or that and all later ones) is refused, up to eight times at requests from different places of the code',
  NOTEST, 'dnstable/query_mtbl.c dnstable/query.c dnstable/entry.c dnstable/reader.c dnstable/merge.c', [('stages of a query', 'dnstable/query_mtbl.c'), ('query objects and their data', 'dnstable/query.c'), ('entries and their rendering', 'dnstable/entry.c'), ('merged values', 'dnstable/merge.c dnstable_merge_func')],
  [part('oom', 'dnstable', 1500, 30000), part('oom', 'merge', 600, 20000)], 'session and refused request', 'fault injection at every allocation with an outcome oracle, ASan+UBSan', 'As for L22; a session is a list of calls with all it observed, and a session after a refused one must observe what it does without any refusal.', ['allocations inside the table, name and DNS libraries succeed'])
