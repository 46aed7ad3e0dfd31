SSA = 'path-sensitive dataflow over go/ssa (value numbering, linear facts, inferred loop invariants)'

prop('C01', 'Storage errors always surface to the caller',
 'Whenever reading, writing, growing or decoding any part of the index or data file fails, the operation that needed it reports an error (or, for a tree iterator, stops and exposes the error) instead of carrying on as if it had succeeded. An end-of-file report may be taken as "nothing here yet" only where it is the documented end-of-list marker or where the missing data is then created.',
 ['fault_sequences', 'inputs'], 'every call in the indexer that can fail, on every path, for every failure of the storage beneath it',
 'The tests run on healthy in-memory buffers; no test injects a failing read, write or seek, and each of the ~180 fallible calls would need its own injection.',
 ['pkg/bptree/bptree.go', 'pkg/linkedpage/linkedpage.go', 'pkg/pagefile/pagefile.go', 'pkg/appendable/index_file.go', 'pkg/handlers/jsonl.go', 'pkg/handlers/csv.go', 'pkg/btree/btree.go', 'pkg/hnsw/hnsw.go'],
 [('error returns', 'every exported function of pkg/...')],
 SSA + ': error-to-return obligation per call site', 'Decided for every fallible call on every path of the analysed functions; trusts the Go front end and that 64-bit arithmetic does not overflow.')

prop('C02', 'Opening rejects foreign indexes and stamps new ones',
 'Opening an index file succeeds only if its stored version is the current one and its stored format is that of the data handler in use, or if the index is new. A new index is stamped with the current version, the handler\'s format, zero read progress and zero records before it is returned.',
 ['inputs', 'histories'], 'every stored metadata content and every handler',
 'Tests open indexes they have just written; stored versions and formats that differ are sampled once at most.',
 ['pkg/appendable/index_file.go', 'pkg/appendable/appendable.go'],
 [('metadata validation', 'NewIndexFile'), ('metadata encoding', 'FileMeta.MarshalBinary / UnmarshalBinary')],
 SSA + ': facts entailed at every successful return', 'Every path of the opener; page accessors are taken at their contract.')

prop('C03', 'Synchronisation consumes whole lines and records progress',
 'One synchronisation, in both formats, starts at the stored read offset and handles every complete line after it exactly once and in order: the next line starts right after the previous newline, the offset then moves past the newline, and the record count grows by one per record. It stops only when no newline remains, so an incomplete last line is left for later. Every index entry made for a line, however deeply nested its value, carries exactly that line\'s offset and length as its record, success is reported only after saving exactly the offset and count reached, and a data file shorter than the stored offset is an error.',
 ['inputs', 'histories'], 'every data file content, stored progress and sequence of appends',
 'Tests synchronise a handful of small files, mostly once; line lengths, resumption points and nesting are sampled, not covered.',
 ['pkg/handlers/jsonl.go', 'pkg/handlers/csv.go', 'pkg/appendable/index_file.go'],
 [('line loop', 'JSONLHandler.Synchronize, CSVHandler.Synchronize'), ('record extent', 'handleJSONLObject, handleCSVLine')],
 SSA + ': loop-step relations over progress, line extent and count', 'Relations proved for an arbitrary iteration from an arbitrary stored state; the contents decoded from a line are not modelled.')

prop('C08', 'Every tree orders its keys by one total order',
 'The order used to place and find keys in a B+ tree compares the value bytes lexicographically first, then the record offset, then the record length, and the order used in the vector B-tree compares ids; both report equality only for identical keys and give opposite answers when the operands are swapped. Every search inside a tree uses that same order.',
 ['inputs'], 'every pair of keys',
 'Tests compare a few sample keys; a tie broken the wrong way needs equal values with particular offsets and lengths.',
 ['pkg/bptree/bptree.go', 'pkg/pointer/referenced_value.go', 'pkg/btree/node.go', 'pkg/btree/btree.go', 'pkg/bptree/node.go'],
 [('comparators', 'pkg/pointer/referenced_value.go, pkg/btree'), ('searches', 'slices.BinarySearchFunc call sites')],
 'finite sign-table evaluation of comparators by dataflow; call-site query over every binary search', 'Exhaustive over the sign table; assumes library comparison functions are correct.')

prop('C12', 'An insertion adds exactly its entry and loses none',
 'Inserting a key into either page tree (the B+ tree of an index and the B-tree of vectors) leaves every entry already there in place and adds exactly the new key with its value, at its place in the key order, and never a key that is already present. A node that outgrows its page is split: what it held is divided over two non-empty nodes without losing or repeating an entry, the separating key and both halves are linked from the parent at the right place (or from a new root, which then becomes the root of the tree), and no node is written that is larger than a page. Every node is written to its own page, with the encoding parameters of its tree.',
 ['inputs', 'histories'], 'every tree shape, node content and key',
 'Tests insert a few sequences of keys; the B-tree tests never split a node, and splits of inner nodes and of middle children are sampled at best.',
 ['pkg/bptree/bptree.go', 'pkg/btree/btree.go'],
 [('insertion', 'BPTree.Insert, BTree.Insert')],
 SSA + ': node columns as sequence terms, checked per step of the climb', 'Proved for an arbitrary descent and arbitrary legal node contents; the descent itself is C24, the byte encoding C06.')

prop('C13', 'Tree pages are written before anything refers to them',
 'While inserting into a page tree, a page is complete on disk before any other page or the stored root refers to it, and a node is rewritten without part of its entries only after that part is stored in another page. The root only ever changes to a page just written. An insertion that is rejected (a key already present, or of the wrong width) writes nothing.',
 ['crash_points', 'fault_sequences', 'inputs'], 'every point at which an insertion can be interrupted or fail',
 'Tests never interrupt an insertion between two writes, so every order of the same writes passes them.',
 ['pkg/bptree/bptree.go', 'pkg/btree/btree.go'],
 [('write order', 'BPTree.Insert, BTree.Insert')],
 SSA + ': order of page writes on every path, including failing ones', 'Writes are taken to reach the disk in program order; the pages of one insertion are not atomic together.')

prop('C14', 'Mapped file accesses stay inside the live mapping',
 'Every read, write and seek of a memory-mapped file stays inside the current mapping whatever offset and buffer it is given, and after growing or closing the file never refers to a mapping that no longer exists. A read or write that reports success has moved exactly the whole buffer to or from the requested position and reports the buffer\'s length, and the sequential forms advance the position by that length.',
 ['inputs', 'histories', 'fault_sequences'], 'every offset, buffer length, prior position and failure of the mapping system calls',
 'Tests exercise a few in-range operations; failing mmap/munmap/mremap calls and the darwin variant never run.',
 ['pkg/mmap/mmap.go', 'pkg/mmap/mremap_linux.go', 'pkg/mmap/mremap_darwin.go'],
 [('position invariant', 'MemoryMappedFile.Seek/Read/Write'), ('remapping', 'MemoryMappedFile.WriteAt, mremap')],
 SSA + ': bounds, typestate of mappings, position invariant', 'Both OS variants; trusts the documented behaviour of the system calls and that no other process truncates the file.')

prop('C17', 'A value is the same key wherever it is indexed, read back and asked for',
 'A string, number, boolean or null is one and the same sequence of bytes in every place that makes a key of it: where Go indexes the JSON value (the data parser of the JSON Lines handler), where the client reads a key back from its place in the data file, and where the client turns the value of a condition into a key; and the condition asks for the index of the type Go gives that value. A text column of a CSV file is its own text in both. The search for the indexes of a field and type finds all of them and no others, in the order of the list, wherever they stand and whatever was asked before, a number being looked for in the indexes of every number type; the list of fields names each field once with all types it has. A record read is the value of its text, or of the fields selected those that the record has, with their values.',
 ['inputs', 'histories'], 'every value; every list of one to three indexes (four thorough) with any names and types, asked once or again; nine selections over a record with arbitrary values',
 'The tests of the client use a few plain values; escapes, large numbers, falsy fields, fields whose indexes are apart in the list, and repeated searches on the same file are not sampled.',
 ['src/db/query-lang.ts', 'src/bptree/node.ts', 'src/file/index-file.ts', 'src/file/meta.ts', 'pkg/handlers/jsonl.go', 'pkg/handlers/csv.go'],
 [('keys', 'processWhere, handleSelect, BPTreeNode.parseValue, JSONLHandler.Parse, CSVHandler.Parse'), ('indexes', 'IndexFileV1.seek, indexHeaders, fetchMetaPages, collectIndexMetas')],
 'abstract interpretation of both sides, the Go SSA and the client lowered from its type-checked syntax tree to the same IR, comparing the symbolic bytes they build from one symbolic value', 'Exact for the values; the number of indexes in a list is bounded as stated. encoding/json and JSON.parse are trusted to agree on the value of a text, Go strings and TextEncoder on UTF-8. Widths declared for CSV columns are a finding of C16.')

prop('C20', 'Metadata decoding never panics',
 'Whatever bytes an index file holds where file or index metadata is expected, decoding them and listing or looking up indexes returns a result or an error and never panics.',
 ['inputs'], 'every stored byte content of a metadata slot',
 'Tests decode metadata they encoded themselves; a truncated or corrupted slot is not among them.',
 ['pkg/appendable/appendable.go', 'pkg/linkedpage/linkedpage.go', 'pkg/appendable/index_file.go'],
 [('length checks', 'FileMeta.UnmarshalBinary, IndexMeta.UnmarshalBinary'), ('slot reads', 'LinkedPage.Metadata')],
 SSA + ': every index, slice and fixed-width read proved in range', 'All input bytes unconstrained; trusts the standard library readers.')

prop('C24', 'Searches and iteration visit tree entries in key order',
 'Every node of a page tree is read from the page it is asked for, with the parameters of its tree. A search descends from the root, at every inner node, into the child whose key range holds the key (the right neighbour of an equal separator), and stands on the first entry not smaller than the key, continuing in the next leaf when its leaf has none. Stepping an iterator moves to the neighbouring entry: inside a leaf by one, and only at the end of a node to the near end of the adjacent node. Past the last or before the first entry the step is refused, and stepping back from there returns to that last or first entry. The first and last entries are found at the outer ends. A lookup returns a key together with the value stored beside it, and the vector B-tree returns a value only for the very key asked for.',
 ['inputs', 'histories'], 'every tree shape, node content, key and sequence of steps',
 'Tests iterate over a few trees, mostly forwards and from an existing key; boundaries of inner nodes at several levels and turning around at an end are not among them.',
 ['pkg/bptree/bptree.go', 'pkg/btree/btree.go', 'pkg/bptree/node.go'],
 [('descent', 'BPTree.traverse, BTree.Find'), ('iteration', 'TraversalIterator.Next, Prev'), ('lookup', 'BPTree.Find, Contains, first, last; BTree.Find')],
 SSA + ': relations between descent records, node columns and searched positions', 'Proved for arbitrary node contents of legal shape (C12) and any depth; ordering inside the nodes is C12 with C08, decoding is trusted.')

prop('C05', 'Index slots are isolated, round-trip and form one growing list',
 'Every index has one slot in a linked list of pages. Reading or writing the root pointer or the metadata of a slot touches only that slot, whatever the slot number and page, never the page header or another slot; what was stored is what is read back, and a fresh slot has no tree and no metadata. The list visits the slots of a page in order and then those of the page it links to, and reports its end exactly when no further slot exists. A slot can only be added at the end of the list; this adds exactly one fresh slot, using the free room of the last page before linking a new page, and a new page is complete before it is linked. Opening the list uses the requested page and initialises it only if it does not exist. A tree attached to a slot keeps its root there.',
 ['inputs', 'histories', 'crash_points'], 'every page position, slot number, slot count, stored content and metadata length',
 'Tests add a few slots and store short metadata; the boundaries at the last slot of a page, neighbouring slots being overwritten, and interrupted additions are not covered.',
 ['pkg/linkedpage/linkedpage.go'],
 [('slot layout', 'LinkedPage.Root, SetRoot, Metadata, SetMetadata'), ('list', 'LinkedPage.Next, AddNext, NewMultiBPTree'), ('attachment', 'LinkedPage.BPTree, BTree')],
 SSA + ': extents of every access to the file compared with the extents of the slots', 'Proved for any page and slot, in the debug and the release build. Known finding: metadata of 253 to 255 bytes overlaps the next slot.')

prop('C06', 'Stored metadata and tree nodes are decoded exactly as they were encoded',
 'For the file metadata, the index metadata and the nodes of both trees: encoding succeeds for every structure of a legal shape (leaf or inner, fixed or variable key width; field names up to 255 bytes) and leaves it unchanged, and decoding the resulting bytes into a fresh structure succeeds and gives back every field: version, format, progress, record count, field name, type, width, cumulative length, every key extent and value, every leaf pointer, child offset, id and vector component, for all values of their types. The encoded length is exactly the size computed for it, the size computed for a variable-length integer is right for every 64-bit value, and a key of variable width is taken from exactly its own extent of the data file.',
 ['inputs'], 'every value of every field, every number of entries a node can hold',
 'Tests round-trip a few small structures; lengths above 127 or 65535, offsets above 4 GiB, mixed leaf and inner shapes with both key widths are not among them, and a structure that shrinks by a byte in one of them goes unnoticed.',
 ['pkg/appendable/appendable.go', 'pkg/bptree/node.go', 'pkg/btree/node.go', 'pkg/encoding/sizeVarint.go'],
 [('metadata', 'FileMeta, IndexMeta MarshalBinary/UnmarshalBinary'), ('nodes', 'BPTreeNode, BTreeNode MarshalBinary/UnmarshalBinary, Size'), ('sizes', 'encoding.SizeVarint')],
 SSA + ': the byte layouts of encoder and decoder are extracted and matched item by item; interval analysis for the varint size', 'Proved for all field values and list lengths; assumes keys as long as the declared width and parsers that yield the inserted value.')
prop('C09', 'The page allocator hands out whole, free pages',
 'A new page is one whole page at a page-aligned offset beyond the first page, either taken off the list of free pages or at the end of the file; it holds the given bytes followed by zeros, nothing else is written, and content longer than a page is refused. The list accepts only non-negative, page-aligned offsets that are not already on it, up to its capacity, and a refused request changes nothing. A page taken off the list is no longer on it. Every change of the list is written to the first page, complete and in order, before success is reported or the page reused; opening a file reads that list back, accepts only files made of whole pages and gives an empty file an empty list.',
 ['inputs', 'histories'], 'every sequence of allocations, frees and reopenings, however often the list wraps around',
 'Tests free and reuse a handful of pages; the ring of 512 entries hardly ever wraps in them, and double frees and reopening after wrapping are not among them.',
 ['pkg/pagefile/pagefile.go', 'pkg/pagefile/pagefile_debug.go'],
 [('allocation', 'PageFile.NewPage, FreePageIndex'), ('free list', 'PageFile.FreePage, writeFreePageIndices, NewPageFile')],
 SSA + ': ring positions up to congruence, entry-by-entry loop relations, order of writes', 'Proved for any state of the ring, in the debug and the release build; trusts that the file is not changed behind the process.')

prop('C25', 'Every field and type has exactly one index, found or created',
 'Looking up the index of a field name and type scans all slots in order from the file metadata on and returns an existing one only if exactly that name and type are stored in it, together with its stored metadata, changing nothing. Only if the whole list holds none is one slot added, at the end of the list; it has that name and type and a zero total, stored in that slot before success is reported, and it is only added if its metadata is known to fit a slot, now and with any later total. The listing of field names contains the name of every slot once. A data handler that updates the metadata of an index stores it in the slot it was found in, keeps name, type and width and never lowers the total. The metadata of the file live in the slot the scan starts from, and a file is reported empty exactly if no slot follows.',
 ['inputs', 'histories'], 'every list of indexes, field name and type',
 'Tests look up a few indexes; many slots, equal names with other types, names that do not fit, and interleaved creation are not covered.',
 ['pkg/appendable/index_file.go', 'pkg/handlers/jsonl.go'],
 [('lookup', 'IndexFile.FindOrCreateIndex'), ('listing', 'IndexFile.IndexFieldNames, IsEmpty, Indexes'), ('metadata', 'IndexFile.Metadata, SetMetadata; handleJSONLObject')],
 SSA + ': ghost cursor over the abstract list of slots, invariants at the scan loop', 'Proved for a list of any length; the slots themselves are C05, the encoding C06. Assumes that list operations fail with an error other than io.EOF.')

prop('C04', 'The indexed data is only ever read',
 'Indexing never changes the data it indexes: no function of the library or the command writes to the bytes given to a synchronisation or to a parser, or to anything that shares memory with them (slices, fields, keys, buffers and readers made from them), in place or by appending into their spare capacity. The command opens the data file for reading only, never creates or truncates it, maps it without write permission, and never opens for writing, replaces or removes a file under the same name.',
 ['inputs', 'histories'], 'every data file and every path from the data bytes through the code',
 'Tests compare the index, not the data afterwards, and run on private buffers where a stray write has no visible effect.',
 ['cmd/main.go', 'pkg/handlers/jsonl.go', 'pkg/handlers/csv.go', 'pkg/bptree/node.go', 'pkg/mmap/mmap.go'],
 [('data bytes', 'JSONLHandler/CSVHandler.Synchronize and Parse, BPTree.Data'), ('opening', 'cmd main, mmap.OpenFile, toProt')],
 'interprocedural field-based alias (may-point-to-data) analysis over go/ssa with write sinks; constant and path-root analysis of the calls that open files', 'The alias analysis over-approximates (flow- and context-insensitive, field-based). Library functions write only to what their documentation says. A user naming the data file as the index file is outside.')
prop('C15', 'Indexing is deterministic',
 'What opening and synchronising an index stores is a function of the data, the handler, the search headers and the index before it: no stored byte, page choice or decision to write depends on the clock, unseeded random numbers, the environment or process, the order in which a map is ranged over, or which of several goroutines or channels runs first.',
 ['inputs', 'schedules'], 'every function reachable from opening and synchronising an index',
 'Map order and scheduling differ between runs in ways a test that passes once does not show.',
 ['pkg/appendable/index_file.go', 'pkg/handlers/jsonl.go', 'pkg/handlers/csv.go', 'pkg/bptree/bptree.go', 'pkg/ngram/tokenizer.go', 'pkg/pagefile/pagefile.go', 'pkg/linkedpage/linkedpage.go'],
 [('reachable writers', 'everything reachable from NewIndexFile and Synchronize that writes to storage')],
 'interprocedural taint analysis over go/ssa from sources of nondeterminism to storage writes (arguments and control), effect analysis of map ranges and goroutines', 'Over-approximating. The vector graph (package hnsw) draws random levels by design and is not part of synchronisation.')
prop('C22', 'A where query yields exactly the records its operator asks for, in order',
 'A query with one condition on an indexed field yields the records of exactly those entries of the index whose value is smaller than, at most, equal to, at least, or larger than the value of the condition, as its operator says: each once, records with equal values included or excluded together, in ascending order of the keys unless descending order is asked for, and ends without an error. It searches the index of the field and of the type of the value, compares with the value of the condition, reads each record from exactly its first to its last byte, and puts it through the selection asked for. A condition on a field the index does not have is an error. The same holds for a query put together by where, orderBy, select and get in any order, as long as a condition exists.',
 ['inputs', 'histories'], 'every operator and order; all lists of entries with up to two (three thorough) smaller than, equal to and larger than the value',
 'The tests of the client query fixed files by a few operators; the ends of the list, several records with the value of the bound, and descending order over them are not covered.',
 ['src/db/database.ts', 'src/db/query-builder.ts', 'src/db/query-lang.ts'],
 [('queries', 'Database.query, Database.where'), ('builder', 'QueryBuilder.where, orderBy, select, get')],
 'abstract interpretation of the client, lowered from the type-checked syntax tree to an IR, over all placements of the entries relative to the bound; trees and iterators by their contract (C10)', 'Values, keys, offsets and lengths are arbitrary; the number of entries on each side of the bound is bounded as stated, loops being followed iteration by iteration. More than one condition, limit and search are not decided; trees and iterators behave as C10 decides.')

prop('C23', 'A mapped file owns its file and shares its memory',
 'A memory-mapped file is a faithful, owned view of one file. Opening that fails leaves neither an open file nor a mapping behind; opening that succeeds keeps the file open. Closing closes the file exactly once and releases the mapping exactly once, whichever step fails, and no other operation closes or replaces the file. Every mapping, also after growing, is made of that file from its first byte, covers exactly the size the file has, and is shared, so that writes reach the file; a file opened for reading and writing stays writable when it grows, also if it was empty when opened, and a file opened read-only is never mapped writable.',
 ['inputs', 'histories', 'fault_sequences'], 'every flag combination, file size and failure of a system call, on linux and darwin',
 'Failing system calls, the darwin variant, leaked handles and a private mapping that looks right until the file is reopened are not visible to the tests.',
 ['pkg/mmap/mmap.go', 'pkg/mmap/mremap_linux.go', 'pkg/mmap/mremap_darwin.go'],
 [('constructors', 'NewMemoryMappedFile, Open, OpenFile, toProt'), ('release', 'MemoryMappedFile.Close'), ('growing', 'MemoryMappedFile.WriteAt, mremap')],
 SSA + ': typestate of files and mappings and value analysis of the mapping calls', 'System calls are modelled by their documentation; both operating systems are analysed.')
prop('C16', 'Every value of a record is indexed once under its path, type, key and place',
 'Indexing a JSON Lines record follows the record token by token. For every key, however deeply nested, whatever white space or arrays and objects surround it: its value is inserted once into the index named by the path of enclosing keys and the key itself, joined by dots, and typed by the value (string, number, boolean, null); an object is entered with the path extended by its key and left behind its end; an array is skipped to its own closing bracket, whatever it contains; both have an index of their type but no entry. The key stored is what the handler itself reads from the stored place again; that place begins behind the colon after the key and ends where the value ends. A string of a field to be searched is also inserted as all its n-grams of one, two and three characters, each into the index of that type, and no other value is. The tree is opened with the width the index declares, and keys have that width. The entry is made in the tree of the index that was looked up, over the same data file. In a CSV record every column is inserted once, in order, under the name of that column in the header, with the type of its text and the key its parser yields.',
 ['inputs'], 'every well-formed record, however nested, spaced or escaped, and every set of searched fields',
 'Tests index a few small records; deep nesting, arrays of arrays and objects, escapes, spacing, empty strings and keys, and searched fields with non-string values are not among them.',
 ['pkg/handlers/jsonl.go', 'pkg/handlers/csv.go'],
 [('walk', 'JSONLHandler.handleJSONLObject, Synchronize'), ('types and keys', 'jsonTypeToFieldType, JSONLHandler.Parse, CSVHandler.Parse, InferCSVField'), ('columns', 'CSVHandler.handleCSVLine')],
 SSA + ' over an abstract document: token automaton with nesting counters, contract for the recursive handler', 'Proved for records of any size and depth; trusts encoding/json. Trees and slots are C12 and C25, words of n-grams are C27. Known findings: CSV trees are opened with width 0, and the places of fields behind a quoted CSV field are wrong.')

prop('C26', 'A valid JSON record is never refused',
 'Once the opening brace of a record was read, a record that is well-formed JSON is indexed without an error and without a panic, whatever its keys, types, nesting and spacing: the handler reports an error only when the decoder or an operation on the index failed.',
 ['inputs'], 'every well-formed record',
 'A refused record stops the indexing of everything behind it; tests contain only the shapes somebody thought of.',
 ['pkg/handlers/jsonl.go'],
 [('walk', 'JSONLHandler.handleJSONLObject, Synchronize'), ('types', 'jsonTypeToFieldType')],
 SSA + ' over an abstract document: every error and panic path needs a failed operation', 'Proved for records of any size and depth; whether operations on the index can fail is not decided here.')

prop('C07', 'The client reads pages, slots and metadata as Go writes them',
 'Whatever the Go side stores, the TypeScript client reads back: for every page and slot, the root pointer and the metadata it returns are the ones stored in that slot; for every list header, the next slot it visits is the following one of the page exactly while the count says there is one, else the first slot of the linked page, and it stops exactly where Go reports the end; it starts at the page in which Go keeps the first slot. Every field of the file metadata and of the index metadata comes back with its value. The numbers of field types and file formats mean the same on both sides.',
 ['inputs', 'histories'], 'every page number, slot, list header and metadata content',
 'The tests of the client read a few recorded files with one page and small offsets; a width, offset, byte order or page boundary that differs beyond those is not seen, and no test runs both sides.',
 ['src/file/multi.ts', 'src/file/meta.ts', 'src/file/index-file.ts', 'src/db/database.ts', 'pkg/linkedpage/linkedpage.go', 'pkg/appendable/appendable.go'],
 [('slots', 'LinkedMetaPage.root/metadata/next, LinkedPage.SetRoot/SetMetadata/Next'), ('start', 'IndexFileV1.tree, NewIndexFile'), ('metadata', 'readFileMeta, readIndexMeta, FileMeta/IndexMeta.MarshalBinary'), ('numbers', 'FieldType, FileFormat')],
 'joint symbolic dataflow: Go writers over go/ssa, TypeScript readers lowered from the type-checked syntax tree to the same IR', 'Decided for all values (page numbers below 2^48); the varint decoding is C11; trusts that a range asked for is the range returned (C21).')

prop('C10', 'The client searches and walks a tree in key order',
 'The TypeScript client orders keys by their bytes as unsigned numbers, a prefix before what it begins, then by offset and length in the data file. A search in a node returns the position of the first key not smaller than the target, and whether it is the target. On a tree of legal shape whose nodes hold any number of entries: an iterator starts at the entry its key belongs to, going down from the root through the child whose range holds the key (the right neighbour of an equal separator); next stops there, or at the following entry if the key lies behind its leaf, prev at the preceding one; every further step goes to the neighbouring entry across however many levels, and is refused exactly when there is none; key and pointer returned are those of that entry. find returns the entry next stops at, or zero values when there is none; first and last return the outermost keys. Nodes are read from the page the pointer names, through the resolver and with the parameters of the tree.',
 ['inputs', 'histories'], 'all byte strings, offsets and lengths; every list of keys; trees of depth one to three (four thorough) with nodes of arbitrary size and content, and every history of two (three) steps from any key',
 'The tests of the client walk two stored trees of ASCII keys from their ends; inner nodes at several levels, turning around, keys that are separators and bytes above 0x7f are not among them.',
 ['src/bptree/bptree.ts', 'src/bptree/traversal.ts', 'src/bptree/node.ts'],
 [('order and search', 'ReferencedValue.compareBytes, binarySearchReferencedValues'), ('iteration', 'BPTree.iter, TraversalIterator.next, prev, getKey, getPointer'), ('lookup', 'BPTree.find, first, last')],
 'symbolic dataflow over the client, lowered from the type-checked syntax tree to an IR; loop invariants for the searches, an odometer over symbolic node sizes as the oracle of a walk', 'Node sizes, contents and the searched positions are arbitrary; depth and number of steps are bounded as stated. Decoding of a page is C11, the legal shape C12; steps after a refused step are not decided.')

prop('C11', 'The client decodes the numbers and tree nodes that Go encodes',
 'Every variable-length number below 2^53 that Go writes is decoded by the TypeScript client to the same value and the same number of bytes, whatever follows it. Every node of a B+ tree that Go encodes into a page is read back by the client as the same node: leaf or inner, with as many keys, leaf pointers and child pointers, each key with its place in the data file, each stored key with its bytes, each pointer with its offset and length; a key kept by reference is what the data file holds at exactly its place; leaf(), numPointers() and pointer(i) answer accordingly. The client reads the page the pointer names, and enough of it to hold any node.',
 ['inputs'], 'every varint of one to ten bytes; every node of up to 4 keys (8 thorough) with arbitrary keys, widths and pointers',
 'The tests of the client decode nodes written by the client tests themselves, with small offsets and few keys; nothing in the repository runs the Go encoder against the client.',
 ['src/util/uvarint.ts', 'src/bptree/node.ts', 'src/bptree/bptree.ts', 'pkg/bptree/node.go'],
 [('numbers', 'decodeUvarint, binary.PutUvarint'), ('nodes', 'BPTreeNode.fromMemoryPointer, BPTreeNode.unmarshalBinary, BPTreeNode.MarshalBinary'), ('questions', 'BPTreeNode.leaf, numPointers, pointer')],
 'joint symbolic dataflow: the Go encoder over go/ssa yields the bytes as terms, on which the client, lowered to the same IR, is evaluated', 'Values, pointers and bytes are arbitrary; the number of keys is bounded by 4 (8 thorough) since loops are followed iteration by iteration; stored keys of nodes with two and more keys have widths 1, 2 and 9 (the widths in use). JSON keys by reference are C17.')

prop('C21', 'A range asked for is the range answered',
 'The client hands out exactly the bytes of the ranges it is asked for. A cache around a resolver answers every range, whatever was asked before, with exactly the bytes from its start to its end, both included, and the total length the resolver gave. A request to a URL names exactly the ranges asked for, in order, and returns one answer per range, in that order, with the bytes and the total length the server gives for it, whether the server answers in parts, range by range, or ignores the ranges (then each is asked for alone). A status other than 200 or 206, and a partial response that does not say its range, is an error, never an answer; a range that ends before it starts is refused without asking, any other (a single byte included) is accepted; with ranges asked for one by one, an expected length is answered with an error exactly if the file has another length. DataFile.get returns the text of exactly the range given, and files opened by URL ask that URL with the configuration given. A multipart response that is cut short ends; it is not read for ever.',
 ['inputs', 'histories', 'fault_sequences'], 'every range; histories of two (three thorough) requests to a cache; one to three ranges in a request; every kind of response',
 'The tests never request through a cache or a URL; a wrong byte at the end of a range, a range overlapping an earlier one, or an unexpected status needs a server and a history they do not have.',
 ['src/resolver/cache.ts', 'src/resolver/range-request.ts', 'src/resolver/multipart.ts', 'src/file/data-file.ts', 'src/file/index-file.ts'],
 [('cache', 'cache'), ('requests', 'requestRanges'), ('files', 'DataFile.get, DataFile.forUrl, IndexFile.forUrl'), ('parts', 'parseMultipartBody')],
 'symbolic dataflow over the client, lowered from the type-checked syntax tree to an IR; typestate of the response stream', 'Ranges are arbitrary; the number of requests and of ranges is bounded as stated. That a server answers the range it is asked for, and that the parts of a multipart body are taken apart correctly, is trusted; what is decided of the latter is that a stream that has ended is not read again.')

prop('C18', 'The distance heap keeps its entries, their places and their order',
 'A heap of vectors by distance holds exactly the entries put into it: whatever was inserted and taken out before, and whatever the distances, inserting a new id adds exactly that entry; inserting a known id gives that entry the new distance and leaves the others as they are; PopMinItem (PopMaxItem) removes exactly the entry it returns, and no other was nearer (farther); PeekMinItem and PeekMaxItem return such an entry and remove nothing; an empty heap answers all four with an error. Afterwards the map of places tells where each entry is and holds no other id, and the entries are in min-max order again. Len and IsEmpty tell the number of entries. A clone holds the same entries, and no operation on the heap or the clone is visible in the other.',
 ['inputs', 'histories'], 'every heap of up to 10 entries (16 thorough; up to 33 for inserting a new id and looking at the ends) with arbitrary distances, in every state its invariants allow, and every operation on it',
 'The tests put in increasing or decreasing distances; an entry that sinks or rises across several levels, equal distances, a changed distance or a map that is wrong shows only for particular arrangements.',
 ['pkg/hnsw/heap.go'],
 [('order', 'DistHeap.Insert, PopMinItem, PopMaxItem'), ('ends', 'DistHeap.PeekMinItem, PeekMaxItem'), ('copies', 'DistHeap.Clone')],
 SSA + ' over heaps with symbolic distances: the invariants are assumed before and required after each operation, as order relations between the distances', 'Inductive over histories (the invariants are the only assumption), bounded in the number of entries as stated; distances are arbitrary but comparable (no NaN).')

prop('C19', 'The graph of vectors links what it should and finds the nearest',
 'An index of vectors returns what was put into it. As long as its lists can hold all vectors, every inserted vector gets the next id, and then any two vectors are friends on every level that both have, on both sides and at their distance, and no vector is its own friend; a search then returns exactly the nearest vectors, as many as asked for, with their distances, and changes nothing. With fewer connections, a new vector is linked with the nearest of those that can be reached, and a vector with too many friends keeps the nearest. A friend entered on a level of a vector is on that level and all below, and the highest level is remembered. A vector of another dimension is neither inserted nor searched for, and leaves no trace. The stored form of the friends of a vector are five bytes for each of the nearest on level 0, nearest first: the highest level both are friends on, and the id, big-endian; zeroes where there are no more. Adding a node stores the vector once under its id and the friends once, and any failure to do so is an error.',
 ['inputs', 'histories'], 'every history of two insertions at levels 0 to 2 (three without levels or in thorough), all distances arbitrary; searches for 1, 2 and more neighbors than there are',
 'The tests insert clusters with a level drawn at random and look at the ids of the nearest; whether links are mutual, levels are complete, the entry point is right or pruning keeps the nearest shows only for particular distances and levels.',
 ['pkg/hnsw/hnsw.go', 'pkg/hnsw/friends.go', 'pkg/vectorpage/manager.go'],
 [('insertion', 'Hnsw.InsertVector'), ('search', 'Hnsw.KnnSearch'), ('friends', 'Friends.InsertFriendsAtLevel, Flush'), ('storage', 'VectorPageManager.AddNode')],
 SSA + ' over histories of insertions with symbolic distances: comparisons fork into order facts, the oracle is stated on ids and order facts', 'Bounded in the number of vectors as stated; the level drawn and all distances are arbitrary. How good the results of an approximate search are, with lists too short for all vectors, is not decided.')

prop('C27', 'A text is cut into exactly the n-grams of its words',
 'For n from one to three, the n-grams of a text are, in order and with no others, all runs of n neighbouring letters and digits inside one of its words, in lower case. Words are what white space separates; the text is normalised (NFKD) first, and what is then neither an ASCII letter nor digit nor white space is left out without separating. The indexer gives each with the number of characters of the normalised text before it, and the number it spans, characters left out included. The client cuts a text that is searched for into the same n-grams, for each length asked for in ascending order, each looked up by its bytes in the index of its length; putting them in a random order keeps each exactly once.',
 ['inputs'], 'every text of up to 4 characters (client: 3) of every kind, and of up to 6 (7 thorough; client: 4 and 5) letters, blanks and characters outside of ASCII, each character being arbitrary within its kind',
 'The tests cut a few phrases; characters of several bytes or UTF-16 units, words shorter than the n-gram, punctuation inside words and compatibility forms are hardly among them, and none compares the two sides.',
 ['pkg/ngram/tokenizer.go', 'src/ngram/tokenizer.ts'],
 [('indexing', 'BuildNgram, normalizeToAscii'), ('searching', 'NgramTokenizer.tokens, shuffle')],
 SSA + ' and over the client, lowered from the type-checked syntax tree to the same IR, on texts of symbolic characters; the oracle cuts the kinds of the characters', 'Bounded in the length of the text as stated; NFKD itself and the classification of single characters by the libraries are trusted. White space outside of ASCII that survives normalisation is not decided.')

prop('C30', 'A crash at any moment leaves an index that can be opened and continued',
 'If the process dies or the machine loses power at any moment of a synchronisation, the index can be opened again, answers queries about the lines recorded as indexed, and a later synchronisation completes it.',
 ['crash_points'], 'every write, in every order the operating system may persist it',
 'No test stops a synchronisation half-way, and the order in which dirty pages of a mapping reach the disk is not under its control.',
 ['pkg/appendable/appendable.go', 'pkg/bptree/bptree.go', 'pkg/mmap/mmap.go', 'pkg/linkedpage/linkedpage.go'],
 [('write order', 'IndexFile.Synchronize, BPTree.Insert, LinkedPage.AddNext'), ('persistence', 'MemoryMappedFile')],
 na='Pages are written through a shared mapping, which the operating system persists in any order, and a split writes several pages without a journal, so that the property fails by design (it is also known that a crash between the addition of a slot and the writing of its metadata leaves an index that is not opened). The part a program order can guarantee, new pages before the pointer to them, is C13.')

prop('C31', 'A query yields exactly the records that match all of its conditions',
 'For every query the client accepts, the records yielded are exactly those of the data file that satisfy every condition, in the order asked for and without repetition, up to the limit.',
 ['inputs', 'histories'], 'every data file, query and network answer',
 'Tests run a few queries on recorded files.',
 ['src/db/database.ts', 'src/db/query-validation.ts', 'src/db/query-lang.ts'],
 [('execution', 'Database.query'), ('limits', 'Query.limit')],
 na='The client refuses conditions on several keys as not supported yet, runs several conditions on one key one after another, each yielding its own entries, and does not look at the limit: unfinished features, not defects of a mechanism; what the implemented part owes, the entries of one condition in order, is C22, the keys are C17 and the bytes C21. Equality with the set of matching records quantifies over the contents of a file and the behaviour of a server.')

prop('C32', 'Approximate search finds nearly all of the nearest vectors',
 'With lists shorter than the number of vectors, a search finds the nearest vectors with a recall close to one.',
 ['inputs'], 'every set of vectors and every query',
 'Recall is a statistical quantity of the data.',
 ['pkg/hnsw/hnsw.go'], [('search', 'Hnsw.KnnSearch, Hnsw.InsertVector')],
 na='A statement about the distribution of distances and of drawn levels; no property of the source bounds it. The exact part, with lists that can hold all vectors, is C19.')

prop('C33', 'A search touches a number of pages logarithmic in the number of keys',
 'Inserting or looking up a key reads and writes a number of pages that grows with the logarithm of the number of keys, and the index takes space proportional to the data.',
 ['inputs', 'histories'], 'every history of insertions',
 'Tests are too small to tell the growth.',
 ['pkg/bptree/bptree.go', 'pkg/btree/btree.go'], [('splits', 'BPTree.Insert'), ('search', 'BPTree.Find')],
 na='The height depends on how full pages are, a quantity of run-time contents (keys of any width share a page) for which no invariant in reach gives a bound; that a split keeps the legal shape is C12.')

prop('C34', 'Numbers are indexed in numerical order',
 'A range query on a numeric field yields the records whose number lies in the range, for negative numbers as well.',
 ['inputs'], 'every pair of numbers',
 'Tests use non-negative numbers.',
 ['pkg/handlers/jsonl.go', 'src/db/query-lang.ts'], [('encoding', 'JSONLHandler.handleJSONLObject, processWhere')],
 na='The byte order of the stored keys is the big-endian form of the floating-point number on both sides, which orders negative numbers backwards; the format is given and repairing it changes every file, so this is a known limit of the format and not decided. That both sides build the same key is C17, the order of the bytes C08 and C10.')

prop('C35', 'Search results are ranked by how much of the text they share',
 'A search yields the records that contain the searched text first, by the number of n-grams they share, and highlights exactly the places that match.',
 ['inputs'], 'every text and query, in every script',
 'Tests rank a handful of English sentences.',
 ['src/ngram/table.ts', 'src/ngram/tokenizer.ts', 'src/db/database.ts', 'pkg/ngram/tokenizer.go'], [('ranking', 'PriorityTable, Database.query'), ('tokens', 'NgramTokenizer')],
 na='Ranking is a heuristic without a stated criterion: the frequencies are counted by an object that is new for every entry, so what is intended cannot be read off the source, and no contract is stated. Which n-grams a text has on both sides is C27, that they are indexed C16.')

prop('C36', 'A multipart answer is taken apart into exactly its parts',
 'For every multipart response, however it is cut into chunks, the parts yielded are the bodies of the parts, byte for byte.',
 ['inputs', 'schedules'], 'every body and every way it is cut into chunks',
 'Tests use a few bodies in a few chunk sizes.',
 ['src/resolver/multipart.ts'], [('parser', 'parseMultipartBody')],
 na='The parser is a string search with a failure table over a buffer that grows while the stream is read; its invariant ties the buffer, the table and the bytes still to come, which the relational domain here does not express. What is decided of it, that a stream that ended is not read again, is in C21.')
