prop('B01', 'Base-64/32/16 encoding is exact and decoding it gives the data back',
 'For every byte string and every supported alphabet (base64 with and without padding, URL-safe base64, base32, base32-hex, base16, or a definition of the user\'s own of 64, 32 or 16 characters), encoding produces exactly the RFC 4648 text and decoding that text gives the byte string back. This holds for library-allocated results, for a size query followed by an exact buffer, and for larger buffers; a buffer that is too small is refused with the needed size and left untouched, and nothing outside the announced size is ever written. A definition whose group sizes do not fit together is refused.',
 'inputs', 'all byte strings, all six alphabets and user-defined ones, all buffer styles and sizes', 'The tests encode a few dozen fixed strings into comfortable buffers; padding classes x alphabets x buffer sizes x byte values are unbounded.',
 'zt_base.c zt_base.h', [('block encoder', 'zt_base.c'), ('output size computation', 'zt_base.c'), ('alphabet tables', 'zt_base.c')], 'h_codec', fuzz=['roundtrip'])
prop('B02', 'Decoding arbitrary text yields the defined bytes or a clean refusal',
 'For any text, decoding skips white space and padding characters and yields exactly the bytes the alphabet defines, or fails without success being reported when a character is foreign to the alphabet or a final group cannot hold whole bytes. Reads and writes stay inside the given lengths, a size query never writes, and the answer does not depend on which buffer style is used.',
 'inputs', 'all texts: valid, corrupted, truncated, interspersed with white space and padding, arbitrary bytes', 'The tests decode only the encodings they expect; malformed text is an infinite space.',
 'zt_base.c', [('block decoder', 'zt_base.c'), ('character classification tables', 'zt_base.c')], 'h_codec', fuzz=['decode'])
prop('H01', 'SHA-1 digests are correct for every message and every split into updates',
 'The digest of a message is the FIPS 180 SHA-1 digest no matter how the message is divided into update calls, how long it is (past 2^32 bits included) or how the data is aligned, and the one-shot call agrees. Hashing never modifies the caller\'s data, which may be read-only; digest-to-text and text-to-digest are mutually inverse and the text is terminated.',
 'inputs histories', 'all messages, all splits into updates, all alignments', 'Three published vectors are tested; block boundaries, carry of the length counter and split points are not.',
 'zt_sha1.c', [('block buffering', 'zt_sha1.c'), ('length counter', 'zt_sha1.c'), ('compression function', 'zt_sha1.c')], 'h_codec')
prop('H02', 'FNV hashes equal the published function and can be continued',
 'The 32- and 64-bit hashes of a buffer or a string are FNV-1a for every input and starting value, and hashing a buffer in two parts by passing the first result on gives the hash of the whole. Only the given bytes are read. The folding macros give the published xor fold of a 32-bit hash to 4, 8, 16, 24 or any smaller number of bits.',
 'inputs', 'all byte strings, starting values and split points', 'Tests compare a few constants.', 'zt_hash.c zt_hash.h', [('hash loops', 'zt_hash.c')], 'h_codec')
prop('U01', 'UUIDs survive every text form; malformed text is rejected',
 'Every 128-bit UUID printed in the standard, short or base62 form parses back to the same UUID, the printed text has the documented shape and length, and printing into a given buffer never exceeds it. Text that is not well formed (wrong length, misplaced or missing dashes, foreign characters) is rejected by validation and by parsing, without reading past its end. Base62 text whose halves exceed 64 bits names no UUID and is not parsed.',
 'inputs', 'all UUID values, forms and buffer sizes; all malformed texts', 'Tests print and parse a handful of UUIDs and never malformed text.', 'zt_uuid.c', [('formatters and parsers', 'zt_uuid.c'), ('validation', 'zt_uuid.c')], 'h_codec', fuzz=['malformed'])
prop('U02', 'Generated UUIDs carry their version, variant and defined content',
 'Name-based UUIDs equal the RFC 4122 version 5 UUID of their namespace and name for every name; random UUIDs have version 4 and the RFC variant and all their other bits vary independently. Comparison is zero exactly for equal UUIDs.',
 'inputs', 'all names, all four namespaces, any number of random draws', 'Tests use two names.', 'zt_uuid.c zt_sha1.c', [('version/variant bits', 'zt_uuid.c'), ('namespace constants', 'zt_uuid.c')], 'h_codec')
prop('U03', 'Random UUIDs never repeat across threads, forks and processes',
 'Random UUIDs drawn by any number of threads of a process, by a process and the children it forks, or by processes started at the same moment are all distinct.',
 'schedules histories', 'all interleavings of drawing threads, forks at any point and simultaneous starts', 'Tests draw two UUIDs in one thread.', 'zt_uuid.c zt_random.c', [('generator seeding and state', 'zt_uuid.c')], 'h_codec', note='Concurrency is sampled: threads released together, repeated.')
prop('R01', 'The random generator is MT19937 for every seed',
 'A generator seeded with a number or with an array of numbers produces exactly the MT19937 sequence for that seed, as integers and as reals in the documented intervals, and independent generators do not influence each other. A generator used before it is seeded seeds itself from the clock.',
 'inputs histories', 'all seeds, seed array lengths and output positions, interleaved generators', 'Tests compare one published sequence.', 'zt_random.c', [('seeding', 'zt_random.c'), ('state refresh and tempering', 'zt_random.c')], 'h_codec')
prop('S01', 'String slice operations follow one slice model',
 'For every non-empty text and pair of indices (negative counts from the end, too large means the last character, order is irrelevant, both ends inclusive) substring, repetition, concatenation of two or of many slices, reversal, character mapping, length, position and bounded copy give exactly what the slice model defines. Slices of an empty text are empty: concatenated, repeated, reversed or mapped they add nothing. Results are terminated, inputs unchanged, and bounded copies never exceed their bound.',
 'inputs', 'all texts over all bytes, all index pairs, any number of concatenated slices', 'Tests use a dozen slices of the alphabet.', 'zt_cstr.c', [('index conversion', 'zt_cstr.c'), ('slice copy loops', 'zt_cstr.c')], 'h_text', fuzz=['slices'])
prop('S02', 'Searching and comparing within slices agrees with naive search',
 'First and last occurrence of a character, of any character of a set and of a string within a slice are what a naive scan of the slice finds, as positions in the whole text, and matches that lie outside or stick out of the slice are not reported. Nothing is found in an empty text, and a character may be given as a char or as an unsigned char value. Comparing two slices orders them lexicographically with the shorter prefix first, antisymmetrically.',
 'inputs', 'all texts, slices, needles and sets', 'Tests search a fixed alphabet string.', 'zt_cstr.c', [('search loops', 'zt_cstr.c'), ('comparison', 'zt_cstr.c')], 'h_text', fuzz=['search'])
prop('S03', 'Trimming and reverse spans remove exactly what they define',
 'Removing a final newline, stripping surrounding blanks (keeping one newline when the trailing white space held one) and the trailing-span functions give exactly the defined result for every text, including empty and all-white-space text, editing in place without touching memory outside the text.',
 'inputs', 'all texts', 'Tests trim two strings.', 'zt_cstr.c', [('in-place editing', 'zt_cstr.c')], 'h_text')
prop('S04', 'Splitting text loses and invents nothing',
 'Splitting at a set of delimiters yields exactly the non-empty maximal runs of other characters in order, cutting yields the remainder after each delimiter (with the delimiter when asked to keep it), and tokenising yields the successive shorter prefixes ending before each delimiter. The input is unchanged and every part is an independent terminated copy, for any number of parts.',
 'inputs', 'all texts, delimiters and delimiter placements', 'Tests split three strings.', 'zt_cstr.c zt_ptr_array.c', [('split, cut and tok loops', 'zt_cstr.c')], 'h_text')
prop('S05', 'Path text operations decompose and join paths correctly',
 'The last component (optionally without a proper suffix), the parent directory, the join of two paths and the absolute-path test give the POSIX-like answer for absolute, relative, root-level and single-component paths, whether or not separators end the path or are repeated inside it. Results written to a caller\'s buffer are truncated to it, always terminated, and never exceed it.',
 'inputs', 'all paths, all suffixes and buffer sizes', 'Tests use a few paths and a large buffer.', 'zt_cstr.c', [('basename/dirname', 'zt_cstr.c'), ('path append', 'zt_cstr.c')], 'h_text')
prop('S06', 'Hex conversion and hex dumps show every byte once and stay in bounds',
 'Converting bytes to hex text and back is lossless and stops at the given bounds; text with a foreign character or a dangling half byte is refused with EINVAL. A hex dump delivers every byte exactly once, in order, as hex and printable text, sixteen to a line with its address, then one end mark, from memory or from a character source with bytes of any value, and stops when the consumer says so; the built-in printer shows the same.',
 'inputs', 'all byte strings and lengths, all buffer bounds, all stopping points', 'Tests dump one string and convert one value.', 'zt_cstr.c', [('dump line assembly', 'zt_cstr.c'), ('hex converters', 'zt_cstr.c')], 'h_text')
prop('S07', 'Integer-to-text is exact and never exceeds its buffer',
 'Every int is written at the given offset exactly as decimal text with a terminator when and only when the buffer has room, the returned offset is that of the terminator, and the computed display length is the number of characters.',
 'inputs', 'all int values, offsets and buffer sizes', 'Tests convert a few numbers.', 'zt_cstr.c', [('itoa and display length', 'zt_cstr.c')], 'h_text')
prop('N01', 'Checked integer arithmetic is exact or stops the program',
 'In a build with assertions, checked addition, subtraction, multiplication and division of each provided integer type return the mathematically exact result whenever the type can represent it, and stop the program whenever it cannot (or the divisor is zero).',
 'inputs', 'all operand pairs of all provided types', 'Tests try the limits with one other operand, in a build without assertions.', 'zt_int.h', [('overflow preconditions', 'zt_int.h')], 'h_int', assert_=True)
prop('F01', 'Formatted text agrees with the C library',
 'Formatting with the d, o, u, x, c, s, f, e, g and p conversions, introduced by percent or tilde, with sign, space, left-adjust and zero flags, literal or argument-supplied widths and precisions, produces the text the C library produces for the same directive (p: plain hexadecimal). It does so from several threads at once.',
 'inputs schedules', 'all formats of the common subset, all argument values', 'Tests format a few ints and strings.', 'zt_format.c', [('directive parsing', 'zt_format.c'), ('number and string layout', 'zt_format.c'), ('conversions', 'zt_format.c')], 'h_fmt', fuzz=['printf'])
prop('F02', 'Every formatting output delivers the same text, counted and bounded',
 'The same format and arguments deliver the same characters to a buffer, a stream, standard output, an allocated string and a character consumer, and the returned count is the number of characters delivered. Output to a buffer is cut off at its size, always terminated and never written past; conversions registered by the user are called with the argument, flags, width and precision given, and registering returns the previous conversion.',
 'inputs histories', 'all formats, buffer sizes, consumers and registration sequences', 'Tests print into a large buffer and ignore the count.', 'zt_format.c', [('output sinks', 'zt_format.c'), ('conversion table', 'zt_format.c')], 'h_fmt')
prop('T01', 'Time arithmetic is exact, normalised and alias-safe',
 'Adding, subtracting, differencing and comparing normalised times gives the exact result with microseconds in [0, 1000000), also when the result is stored over an operand. Timing a function calls it exactly the requested number of times and returns its last result. Pausing lasts at least the time asked for and not seconds more, however the argument is written.',
 'inputs', 'all normalised times (negative seconds included), all aliasings', 'Tests compare two readings of the clock.', 'zt_time.c', [('carry and borrow', 'zt_time.c')], 'h_fmt')
prop('C01', 'A growable buffer is a first-in first-out byte queue',
 'After any history of adding, gathering, moving, draining, removing, reserving and expanding, a buffer holds exactly the bytes added and not yet taken, in order. Draining and removing take from the front, at most what is there, and report what is left or what was taken; reserving n bytes makes at least n bytes available, a request no address space can hold fails and changes nothing, and moving a buffer into itself changes nothing; freeing gives all memory back.',
 'histories inputs', 'all operation histories and sizes on several buffers', 'Three short scripts are tested, none adds data after draining.',
 'zt_buf.c', [('drain', 'zt_buf.c'), ('growth', 'zt_buf.c')], 'h_cont', technique='stateful model-based histories')
prop('C02', 'The hash table is an exact map for every hint, hash and key kind',
 'After any history of set, get and delete, with integer, string, case-insensitive or binary keys (zero bytes included), any size hint, any hash function consistent with the comparison and with or without duplicate keys, a table answers exactly as an association list does: setting a present key is refused unless duplicates are allowed, get and delete find the most recently added entry of a key or fail with ENOENT, deleting one entry disturbs no other. Iteration visits every entry exactly once, may delete what it visits and stops when told; copying transfers every entry, also into a table that already holds some of the keys, which keep their values.',
 'histories inputs', 'all histories, hints, hash functions and key sets', 'The test inserts ten entries into a sparse table and never deletes.',
 'zt_table.c zt_hash.h', [('bucket selection', 'zt_hash.h'), ('chain unlinking', 'zt_table.c'), ('comparators', 'zt_table.c')], 'h_cont', technique='stateful model-based histories')
prop('C03', 'Sets obey set algebra under their equality',
 'For sets under any of the provided comparisons or a user equivalence, after any history of inserts and removals: membership, size, iteration, union, intersection, difference (into empty or filled sets), subset and equality are those of mathematical sets; equal elements at different addresses are the same element; inserting a present element reports it and changes nothing; removing a stored element removes exactly that one and removing an absent one fails; destroying a set hands each element to the destructor once.',
 'histories inputs', 'all histories on several sets and all element kinds', 'Tests combine two fixed sets, one contained in the other.',
 'zt_set.c zt_set.h zt_table.c', [('union, intersection, difference', 'zt_set.c'), ('insert and remove', 'zt_set.c')], 'h_cont', technique='stateful model-based histories')
prop('C04', 'Arrays and pointer arrays hold exactly what was stored',
 'After any history of operations a pointer array holds the pointers added and not deleted (a delete removes one occurrence, reports whether there was one, and hands it to the free callback once); an index outside the array yields NULL or an error and -1 means the last element. An array of fixed-size elements returns what was put, keeps its elements when resized or copied and has zeroes in added space. No operation touches memory outside the elements.',
 'histories inputs', 'all histories, element sizes and indices', 'The pointer array has no tests of its own; the array test stores ten ints.',
 'zt_ptr_array.c zt_array.c', [('growth and delete', 'zt_ptr_array.c'), ('resize and copy', 'zt_array.c')], 'h_cont', technique='stateful model-based histories')
prop('C05', 'Lists, queues, stacks and linked lists keep order and links intact',
 'After any history of additions, removals and joins an embedded list holds its entries in the defined order, the same read forward and backward; a queue gives elements back first-in first-out and a stack last-in first-out, and both give NULL when empty. Linked lists reverse, merge and sort (with a greater-than or a three-way comparison) into exactly the expected permutation and lose no pair.',
 'histories inputs', 'all histories and list contents', 'Tests push ten elements and pop them; sort, merge, join and empty queues are untested.',
 'zt_list.h zt_queue.h zt_stack.h zt_llist.h', [('link updates', 'zt_list.h'), ('merge sort', 'zt_llist.h')], 'h_cont', technique='stateful model-based histories')
prop('C06', 'The tree is an ordered map with logarithmic cost',
 'After any history of inserts and removals the tree iterates its nodes in strictly increasing order, finds exactly the stored keys, finds the first node not less than a key, reports its smallest and largest node, and returns the node already stored for a duplicate key. No operation compares more often than a balanced tree of that size allows, and nodes may be removed while iterating safely.',
 'histories inputs', 'all histories in any key order', 'The test inserts ten keys and removes two; rebalancing has dozens of mirror-image cases.',
 'zt_tree.c zt_tree.h', [('insert fix-up', 'zt_tree.c'), ('remove fix-up', 'zt_tree.c'), ('successor', 'zt_tree.c')], 'h_cont', technique='stateful model-based histories')
prop('M01', 'Memory pools never hand out overlapping or reused live memory',
 'Every element allocated from a pool or a pool group is usable in full, aligned as its size allows (up to eight bytes), distinct from every live element, and keeps its content until released. Pages are given back only when all of their elements are free and the release test agrees (never for a never-free pool), statistics agree with what happened, the pages kept are those the requested number of elements needs, trimming leaves no free page, a pool with live elements refuses to be destroyed (a group that holds one reports failure and leaves that pool in place), the release test is told the requested elements, the flags and the data of its pool, and a group serves a request from the pool whose element size is closest and refuses what no pool can hold. Pools are found by name while they exist, and what is printed of a pool, a group or all pools agrees with the statistics, showing each pool, page and free element once.',
 'histories inputs', 'all histories of allocation and release, element sizes, cache sizes and release policies', 'The pools have no direct test; ordering of releases over pages is unbounded.',
 'zt_mem.c', [('free list and page accounting', 'zt_mem.c'), ('page release', 'zt_mem.c'), ('group selection', 'zt_mem.c')], 'h_cont', technique='stateful model-based histories')
prop('M02', 'Destroying a hierarchical pool frees its subtree, all of it, once',
 'Memory, strings and adopted buffers of a pool stay valid and intact until the pool or one of its ancestors is destroyed; then each is given back exactly once, through its callback if it has one, together with every pool below, and nothing else is touched, also when a callback allocates from its pool or destroys other pools. Fresh allocations are zeroed and aligned for any object. After the last pool is destroyed nothing is leaked.',
 'histories', 'all pool trees and destruction orders', 'The pool has no tests.', 'zt_ez_mempool.c', [('unlinking from the parent', 'zt_ez_mempool.c'), ('subtree destruction', 'zt_ez_mempool.c')], 'h_cont', technique='stateful model-based histories')
prop('M03', 'Repeating any use of the library does not use more memory every time',
 'Doing the same thing again with any module, whether it succeeds or is refused, and with the documented release calls made for what the caller was given, leaves the memory in use and the open descriptors where they were. Nothing is kept back per call, per failed call or per object.',
 'histories inputs', 'the generated cases of all modules, each done five times in one process', 'Tests run each path once and never look at what is still allocated.',
 'zt_cstr.c zt_buf.c zt_table.c zt_set.c zt_array.c zt_ptr_array.c zt_llist.c zt_mem.c zt_ez_mempool.c zt_gc.c zt_ipv4_tbl.c zt_opts.c zt_cfg.c zt_log.c zt_format.c zt_bstream.c zt_path.c zt_progname.c zt_uuid.c zt_random.c zt_time.c', [('release', 'zt_malloc.c')], '*', technique='metamorphic: the cases of all checks repeated, memory and descriptors compared')
prop('I01', 'A byte stream reads back what was written, in either byte order',
 'After any history of typed and raw writes, reads, rewinds, truncations, byte-order changes and clones, reading a stream from a position gives exactly the bytes written there: each typed value reads back as itself, stored in reversed byte order while the stream is flipped and in host order otherwise. Rewinding returns the old position, a truncated stream is empty and can be written again, a clone has the same content, position and byte order and is independent of its origin, and replaced content is the one read. No operation touches memory outside the stream and freeing streams gives all memory back.',
 'histories inputs', 'all histories of operations on several streams; values of every type', 'One script of writes followed by reads is tested; truncation, flipped values and interleavings are not.',
 'zt_bstream.c zt_array.c', [('position and growth', 'zt_bstream.c'), ('byte order', 'zt_bstream.c'), ('clone', 'zt_bstream.c')], 'h_net', technique='stateful model-based histories')
prop('V01', 'An address is found exactly when a stored network contains it',
 'Searching a table for an address or network, as text or as a node, finds a node exactly when it lies within or equals one of the networks added to that table (0.0.0.0/0 contains everything), and the node found is such a network. This holds for every table size, any number of networks and prefix lengths, and several tables of different sizes used at once; destroying a table gives back its memory and leaves other tables intact.',
 'histories inputs', 'all histories of additions, searches and destructions over several tables', 'Seven networks in one table of one size are tested.',
 'zt_ipv4_tbl.c', [('bucket selection per prefix', 'zt_ipv4_tbl.c'), ('prefix list', 'zt_ipv4_tbl.c'), ('pools', 'zt_ipv4_tbl.c')], 'h_net', technique='stateful model-based histories')
prop('V02', 'Network text parses exactly or is refused',
 'Every dotted address, with or without a prefix length (a length above 32 counts as 32), parses to its host-order value and length, and the conversions between number and text are mutually inverse. Text whose address part is not an address, or whose prefix part is missing, negative or not a number, is refused by the parser, by adding and by searching, and is never treated as some network. Nothing outside the text is read.',
 'inputs', 'all texts', 'Only well-formed text is tested.', 'zt_ipv4_tbl.c', [('network parser', 'zt_ipv4_tbl.c')], 'h_net', fuzz=['malformed'])
prop('G01', 'The collector never releases what is reachable and releases what is not',
 'For any object graph (cycles included) and any history of registrations, links, unlinks, protections, unregistrations and collections, where an object that is not new is marked when stored into another one: no object reachable from a protected object is released, however incremental steps interleave with the mutations, no object is released twice, and none while the collector is disabled. Objects that are unreachable are released within three full collections; collection also goes on by itself, with a step at the latest when the configured number of objects has been registered since the last one (or when it is enabled again with that many pending), so that further registrations alone release what cannot be reached when a step scans more objects than are registered between steps; an incremental step scans at most the configured number of objects; every registered object is listed, and printed, exactly once; destroying the collector releases each remaining object once, also when releasing one destroys another collector.',
 'histories schedules', 'all object graphs, mutation histories and placements of collection steps', 'The test runs five complete collections over one chain; no collection is ever interrupted.',
 'zt_gc.c zt_gc.h', [('scan position', 'zt_gc.c'), ('colour switch', 'zt_gc.c'), ('protection', 'zt_gc.c')], 'h_gc', technique='stateful model-based histories')
prop('O01', 'Command lines mean the same in every way of writing them',
 'For every valid option table and every command line built from it, whichever forms are used (--name=value, --name value, -n value, -n=value, -nvalue, several short options in one argument, the last of them with a value), each option has exactly its effect, in order: flags are counted, strings are copied, arrays grow, numbers in decimal, octal or hexadecimal and booleans in each spelling are converted exactly, callbacks are called with their definition and value, and may themselves process another command line. Processing stops at the first argument that is not an option and reports its position, from where it can be resumed; the arguments themselves are not changed.',
 'inputs histories', 'all option tables and command lines', 'One command line is tested.', 'zt_opts.c zt_opts.h', [('argument loop', 'zt_opts.c'), ('value lookup', 'zt_opts.c'), ('conversions', 'zt_opts.c')], 'h_opts', fuzz=['accept'])
prop('O02', 'Defective command lines and option tables are always reported',
 'An unknown long or short option (alone, or inside a group), a missing value, a malformed, empty or out-of-range number or boolean is reported to the error handler with its code (EINVAL, or ERANGE for range), values given before are kept, and if the handler returns nothing is read past the arguments. Without a handler the program ends with the code after a message on stderr. A callback that returns a negative number ends processing with that number; a table with duplicate names, without a name or help text, or with an invalid short name is reported, also by help and usage for a nameless option, and a valid one never is.',
 'inputs', 'all defective command lines and tables', 'No error is tested.', 'zt_opts.c', [('unknown options', 'zt_opts.c'), ('conversion errors', 'zt_opts.c'), ('table validation', 'zt_opts.c')], 'h_opts')
prop('O03', 'Help shows every option and every word; error texts are complete',
 'Help and usage output contain, for each option in order, its names, argument and the whole help text, wrapped between words, for texts and words of any length. Error texts consist of the code, the system text of the code and the whole formatted message; the default handlers write them as one line to stderr and return the code, or -1 for neither code nor message.',
 'inputs', 'all option tables and help texts', 'Help output is not tested.', 'zt_opts.c', [('help printer', 'zt_opts.c'), ('error formatting', 'zt_opts.c')], 'h_opts')
prop('K01', 'A configuration file means what its text says, with types',
 'Every variable of a well formed ini file is found under its block (Global before the first block header) with the type and value its text denotes: decimal, hexadecimal and octal integers, floats (also an integer no long can hold), yes/no/true/false in any case, bare and quoted strings (comment characters belong to a quoted string, trailing blanks and comments do not belong to a value; a quote that is not closed is a character like any other). Blocks met again continue, later assignments replace earlier ones, a text naming an existing variable refers to it. Asking for another type or an absent variable fails without writing a result, and closing gives all memory back.',
 'inputs', 'all well formed files', 'One file with four variables is tested.', 'zt_cfg.c zt_cfg/cfg_ini.c zt_cfg/cfg_private.c', [('line and block parsing', 'zt_cfg/cfg_ini.c'), ('typing, insertion and references', 'zt_cfg/cfg_private.c')], 'h_cfg', fuzz=['file'])
prop('K02', 'Configuration assignments are read back exactly and through references',
 'After any history of assignments every variable reads back exactly the value assigned last: every long, every double bit for bit, booleans by name and strings of any length, also when its type changed. References follow later changes of their target, and an assignment that would make a variable refer to itself through any chain never makes a read hang. All memory is given back on closing.',
 'histories', 'all histories of typed assignments and reads', 'One float assignment is tested.', 'zt_cfg/cfg_private.c', [('assignment', 'zt_cfg/cfg_private.c'), ('reference chains', 'zt_cfg/cfg_private.c')], 'h_cfg')
prop('K03', 'Malformed configuration files are refused whole and safely',
 'A file with a malformed line (no equals sign, empty value, over-long line or block name, block name that does not end on its line) or that cannot be opened is refused, the message naming the number of the malformed line, and any bytes at all are accepted or refused without touching memory outside the parser\'s buffers; refused or closed, all memory is given back.',
 'inputs', 'all byte strings as files', 'Malformed files are not tested.', 'zt_cfg/cfg_ini.c', [('parser refusals', 'zt_cfg/cfg_ini.c')], 'h_cfg', fuzz=['bytes'])
prop('L01', 'Every log message is written once, completely, where and when it should',
 'For every choice of prefix options, level threshold and destination (file appended to or overwritten, standard error, system log) a message is written if and only if its level passes the threshold of the logger it is sent to, as one line: the chosen prefix parts in order, the formatted text, the error text when asked for, and the debug information set for exactly this message, also when its arguments log something themselves. The calling forms that are macros behave as one call, also when guarded by a condition or in a loop. Names holding percent signs print as they are. The default logger is the one installed last, setters return the previous value, system log priorities match the levels, closing loggers gives their memory back, and a message logged to a file is there once however the process or its forked children end; a log file that cannot be opened gives no logger.',
 'inputs histories', 'all messages, option sets, thresholds and histories of logger changes', 'One logger with nine messages is tested.', 'zt_log.c zt_log/log_private.c zt_log/log_file.c zt_log/log_stderr.c zt_log/log_syslog.c', [('prefix assembly', 'zt_log/log_private.c'), ('filtering and default logger', 'zt_log.c'), ('destinations', 'zt_log/log_file.c')], 'h_log', fuzz=['lines'])
prop('L02', 'Logging from many threads loses and mixes nothing',
 'Messages logged by any number of threads through one logger at once all arrive, each as one unbroken line with the date of its own sending and its own thread\'s debug information, in the order each thread sent them; threads that use the default logger for the first time at once share one logger; a new thread starts without debug information and one that ends leaves no memory behind.',
 'schedules', 'all interleavings of logging threads', 'Logging is tested from one thread.', 'zt_log.c zt_log/log_file.c', [('per-thread context', 'zt_log.c'), ('line locking', 'zt_log/log_file.c')], 'h_log', note='Schedules are sampled by releasing the threads together.')
prop('W01', 'A thread pool processes everything once and always stops',
 'Whatever the interleaving, every item inserted before the pool is killed is given to the input worker exactly once, every result it returns is delivered exactly once (to the output worker, or to the caller polling for it) and every result of the output worker is finalised exactly once; with one thread each, in the order of insertion. No item waits while a thread for it is idle, and a pool without a worker drops its items. Each thread is initialised once and its workers get its data, the signal pipes carry one byte per insertion and one for the end, and killing the pool returns with all queued work done and all threads ended. A pool that cannot get its pipes is refused without disturbing other descriptors.',
 'schedules histories', 'all interleavings of inserting, working, polling and killing threads', 'The thread pool is not tested.', 'zt_threads.c zt_threads/zt_threads_pthreads.c', [('work loops', 'zt_threads.c'), ('shutdown', 'zt_threads.c'), ('queue insertion and signalling', 'zt_threads.c')], 'h_thr', note='All synchronisation goes through replaceable callbacks; a generated schedule decides every switch there. Switches between them are only sampled, on real threads.')
prop('W02', 'Thread wrappers behave like the primitives they wrap',
 'Mutexes exclude, a non-blocking lock of a held mutex fails, what is made and given back leaves no memory behind, condition waits release the mutex and end when signalled or, with a time-out, not before it has passed; starting, ending, joining, killing and identifying threads have the effect and the results of the underlying threads. Calls go to the callbacks installed last, an incomplete set is refused and changes nothing, and without callbacks the calls do nothing.',
 'schedules histories', 'all histories of locking, waiting, starting and joining; all callback sets', 'The wrappers are not tested.', 'zt_threads.c zt_threads/zt_threads_pthreads.c', [('dispatch to callbacks', 'zt_threads.c'), ('pthread implementation', 'zt_threads/zt_threads_pthreads.c')], 'h_thr', note='Real threads: schedules are sampled.')
prop('W03', 'Threads working on separate objects do not disturb one another',
 'Whatever the interleaving, a thread that encodes, hashes, formats, splits or parses text, draws from a generator of its own, or uses its own buffers, streams, arrays, lists, trees, hierarchical pools, collector, option table or configuration sees exactly what it would see alone, also when this is the first use of that part of the library, and no memory is shared behind the caller\'s back without synchronisation.',
 'schedules histories', 'all interleavings of histories on separate objects', 'No test uses two threads.', 'zt_base.c zt_sha1.c zt_hash.c zt_uuid.c zt_random.c zt_cstr.c zt_format.c zt_buf.c zt_bstream.c zt_array.c zt_ptr_array.c zt_tree.c zt_ez_mempool.c zt_gc.c zt_ipv4_tbl.c zt_time.c zt_opts.c zt_cfg.c', [('no hidden state between calls', 'zt_cstr.c'), ('no hidden state between objects', 'zt_format.c')], 'h_mt', variant='tsan', note='Schedules are sampled; the thread sanitizer also sees unordered accesses that did no harm. Parts built on the shared list of memory pools (pools, tables, IPv4 tables) are left out: zt_mem.c says that threads need wrapping there.', technique='differential testing of concurrent against sequential runs under a race detector')
prop('P01', 'Making a directory path makes all of it, nothing else, and always ends',
 'With parents asked for, zt_mkdir succeeds exactly when every part of the path is or can be made a directory (dots, links to directories, double and trailing slashes included), all missing ones are then made with the given mode and nothing else is touched; without parents only the last part is made. An existing directory is success, anything else in the way is failure, and the call always returns: for any path of any length, whatever error the system reports at whichever step, and when other processes make the same directories at the same time. zt_path_exists is zero exactly for what exists.',
 'inputs faults schedules', 'all trees, paths, modes, umasks; failures at and interference before every system call', 'One path of three parts is made twice.', 'zt_path.c zt_path.h', [('creation and parents', 'zt_path.c'), ('retry', 'zt_path.c')], 'h_sys', technique='differential testing against a reference over generated trees with injected faults')
prop('P02', 'The directory found for a trigger is the nearest one holding it',
 'For every existing or missing path and every trigger name, zt_find_basedir returns the longest leading directory of the path (the path itself included) that holds the trigger, with a slash at the end, or nothing if no such directory holds it. This holds for absolute and relative paths of any length; nothing is modified and only the result is allocated.',
 'inputs', 'all trees, paths and triggers', 'One trigger at one level is looked for.', 'zt_path.c', [('upward search', 'zt_path.c')], 'h_sys')
prop('P03', 'Program name and directory follow what the program was started as',
 'A program name is kept whole (up to PATH_MAX), or without its directory if asked, and asking without a name gives the last one. The program directory is the directory of a name with a slash, made absolute from the working directory; for a bare name it is the first element of PATH holding a program of that name (not a directory, nor a file that may not be executed), the last and empty elements (the working directory) included, otherwise the working directory; without PATH it is where the running program is.',
 'inputs histories', 'all names, PATHs, directories holding the program and sequences of questions', 'Bare names are never found through PATH in the tests.', 'zt_progname.c', [('PATH search', 'zt_progname.c'), ('relative names', 'zt_progname.c')], 'h_sys')
prop('A01', 'Exit callbacks run once each, last registered first',
 'When a process that registered callbacks with zt_atexit ends, each of them is called exactly once with its data (as often as it was registered), the last registered first, callbacks registered by callbacks or other exit handlers during exit included, and the exit code is kept.',
 'histories', 'all sequences of registrations before and during exit', 'Exit callbacks are not tested.', 'zt_atexit.c', [('callback stack', 'zt_atexit.c')], 'h_sys')
prop('Q01', 'The unit test runner runs what it is told and reports the truth',
 'Without arguments every suite runs, with arguments exactly the named suites and tests, in order; unknown or malformed names are reported and the others still run. Each test runs between the setup and teardown of its suite and passes unless an assertion, a failure or (in C++) an exception ends it, which is reported with its text and never ends the run. Assertions take their operands as whole expressions. The printed results, errors, assertion counts and totals are those of the tests run, also when tests run again, and the result is 0 exactly if no test failed and all names were known.',
 'inputs histories', 'all suites, test outcomes and command lines', 'The runner runs the tests; it is never seen to fail.', 'zt_unit.c zt_unit_cpp.cpp zt_unit.h', [('runner', 'zt_unit.c'), ('name lookup', 'zt_unit.c'), ('exceptions', 'zt_unit_cpp.cpp')], 'h_sys')
prop('D01', 'A pid file holds exactly the pid of its writer or is reported as failed',
 'After zt_writepid succeeds the file holds the decimal process id of the caller and a newline, whatever it held before, a new one has mode 0644 less the umask, and no descriptor stays open. When the file cannot be opened or written completely (missing directory, full device, size limit, no name, a write or the close fails) the call fails; an interrupted write is done again.',
 'inputs faults', 'all existing contents, kinds of file, umasks and write failures', 'One new file is written.', 'zt_daemon.c', [('pid writing', 'zt_daemon.c')], 'h_sys')
prop('D02', 'A daemon is detached from everything it was started with',
 'zt_daemonize returns 0 in a new process that is in a session of its own without leading it, has no terminal, is no child of the starting process, has only descriptors 0 to 2 open (whatever the limit of descriptors is or was), all on /dev/null, the given umask and directory (or the old one if none is given) and its memory and signal settings as before; the starting process ends with code 0 and never returns from the call. With a directory that cannot be entered no daemon remains.',
 'histories', 'all sets of open descriptors, umasks, signal settings, users and directories', 'Daemons are not tested.', 'zt_daemon.c', [('double fork and descriptor closing', 'zt_daemon.c')], 'h_sys')
prop('L03', 'Assertions stop what they promise to stop and are logged completely',
 'A failed zt_assert_always or zt_abort ends the process with SIGABRT, a failed zt_assert_return or zt_assert_returnV ends the function (with the given value), and nothing after it runs; a true one has no effect. Each failure logs one line with the condition or message, the file without its directory, the line and the function, for texts of any content.',
 'inputs', 'all assertion forms, texts, file names, lines and functions', 'Two assertion forms are tested, without the log.', 'zt_assert.c zt_assert.h', [('assertion macros', 'zt_assert.h'), ('reports', 'zt_assert.c')], 'h_sys')
prop('X01', 'The basic macros compute what they are named for',
 'MIN, MAX, CLAMP, CEILING, FLOOR and ABS give the defined value for operands of every arithmetic type and inside larger expressions, the bit macros set, clear and test all given bits and no others, the container and array macros give the right addresses, the allocation macros give memory for all elements asked for, cleared where promised, and keep its content as it moves, and indentation is as wide as asked.',
 'inputs histories', 'all operand values, expressions and histories of allocations', 'A few constants are tested.', 'zt_macros.h zt_malloc.c', [('arithmetic, bit and layout macros', 'zt_macros.h'), ('allocation', 'zt_malloc.c')], 'h_sys')

prop('Z01', 'The replacements for missing C library functions do what those do',
 'Compiled for a platform that lacks them, the replacements of asprintf and vasprintf deliver the whole formatted text in memory of its own with its length, that of basename points to the text after the last separator of the given path, and that of vsyslog sends exactly one message of the given priority with the whole formatted text, the error text in place of each %m and escaped percent signs intact, for arguments of any length.',
 'inputs', 'all formats, arguments, paths and error numbers', 'Where the C library has the functions the replacements are not even compiled.', 'replace/asprintf.c replace/basename.c replace/vsyslog.c', [('allocated formatting', 'replace/asprintf.c'), ('base name', 'replace/basename.c'), ('system log', 'replace/vsyslog.c')], 'h_rep')

prop('E01', 'Running out of memory is reported or stops the program, never ignored',
 'Whenever an allocation fails inside a library call, the call either reports its failure, having lost no memory and leaving every object as valid and complete as before, or does its work without that memory, or ends the program through an assertion with a message and SIGABRT. It never returns something incomplete as a success, never goes on with memory it did not get and never hangs, whether one allocation fails or all of them do from some point on. Sizes that no memory can have, also as a product of counts, count as memory that cannot be had.',
 'inputs fault_sequences', 'all calls that allocate, arguments and positions of the failing allocation', 'No test makes an allocation fail.',
 'zt_malloc.c zt_mem.c zt_threads.c zt_cfg/cfg_private.c zt_cfg/cfg_ini.c zt_opts.c zt_cstr.c zt_log.c zt_buf.c zt_ipv4_tbl.c zt_assert.c', [('allocation wrappers', 'zt_malloc.c'), ('pool page allocation', 'zt_mem.c'), ('thread pool set-up', 'zt_threads.c'), ('string duplication', 'zt_cstr.c')], 'h_oom', technique='fault injection at a generated allocation in generated calls, against the fault-free result')
prop('L04', 'A build with assertions does the same as the ordinary one',
 'The library compiles with its assertions and debug messages enabled (the Debug build), and no use of it that works in the ordinary build and passes no argument an assertion forbids trips one: everything does what it does without them.',
 'inputs histories', 'all uses of all modules of the other properties', 'The tests are built without assertions.',
 'zt_assert.h zt_array.c zt_cstr.c zt_format.c zt_uuid.c zt_gc.c zt_bstream.c zt_unit.c zt_time.c zt_set.c', [('assertion macro', 'zt_assert.h'), ('size assertions', 'zt_uuid.c'), ('index assertions', 'zt_cstr.c'), ('colour assertions', 'zt_gc.c')], '*', technique='the generated cases of all harnesses on a build with assertions, differentially against the ordinary build', mode='debug')
prop('Y01', 'Bundled queue macros keep every element, once and in order',
 'For each of the six bundled list and queue kinds (LIST, SLIST, STAILQ, SIMPLEQ, TAILQ, CIRCLEQ), after any history of insertions at the head, at the tail and around a given element, removals of any element or of the first, and concatenations, the queue holds exactly the elements put in and not taken out, in the order the operations define. Every way of walking it (forward, backward, with the macros or link by link, around the loop) agrees and ends, the emptiness test is right, and a removed element is not touched again. A head set up by its initialiser behaves like one set up at run time.',
 'histories', 'all operation histories on all six kinds and all positions', 'No test uses the macros except through the thread pool, which appends and takes the first.',
 'compat/sys/queue.h', [('insert, remove and concat macros', 'compat/sys/queue.h'), ('iteration macros', 'compat/sys/queue.h')], 'h_compat', technique='random operation histories against a sequence model')
prop('Y02', 'Bundled splay and red-black tree macros are balanced ordered maps',
 'After any history of insertions and removals, the bundled splay and red-black trees hold exactly the elements put in and not taken out, in key order. Inserting an equal key changes nothing and returns the element present; removal, find, nearest find (not less), minimum, maximum and next or previous neighbour give what an ordered map gives, and the walks visit every element once, in order. The splay tree has the element just found or inserted at its root; the red-black tree keeps its colour rules and parent links, so that no search takes more than twice the binary logarithm of its size; a history of operations on the splay tree takes a number of comparisons proportional to its length times that logarithm.',
 'histories', 'all histories of operations, key orders and sizes', 'No test uses these trees.',
 'compat/sys/tree.h', [('splay and assemble', 'compat/sys/tree.h'), ('red-black insertion and removal fix-up', 'compat/sys/tree.h'), ('iteration macros', 'compat/sys/tree.h')], 'h_compat', technique='random operation histories against an ordered-map model')
