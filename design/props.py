D['C01'] = '''For every function of the indexer packages, every call that can fail (any error result that
originates in storage or decoding, through interfaces and helpers) creates an obligation: on every path where the
call failed, the function's own error result is non-nil at return (`freshErr` must flow to the result, possibly
wrapped), or the error is stored in the iterator's error field with iteration stopped, or it was compared equal to
`io.EOF` where the callee documents EOF as end of list, or the missing page is then created. Oracle: the
correspondence between a failed call and a non-nil result. Bound: none on inputs; loops by invariants; ~100 s.
Tests never inject a storage failure.'''
D['C02'] = '''Dataflow over `NewIndexFile`: at every return with nil error the facts entail either "version read
back == current version and format read back == handler.Format()" or "the metadata page was just created and the bytes
given to SetMetadata encode version, format, 0 and 0". Metadata encoders/decoders are inlined, so the comparison is on
the decoded bytes.'''
D['C03'] = '''Both Synchronize functions and everything they call: at the loop head an invariant relates the
progress variable, the record counter and the stored metadata; each iteration must (line) look for the next newline
from the progress position, (extent) hand exactly the bytes between to the per-line handler, (advance) move progress to
one past the newline, (count) add one; the loop may exit only when no newline remains; the stored metadata at every
successful return holds the final progress and count. Every tree insertion made for a line must carry a record extent
equal to the line's offset and length, nested objects and arrays included. The decoded field values are not modelled.'''
D['C08'] = '''Comparators are evaluated over the finite sign table (each component of two keys less, equal or
greater): the dataflow result on each of the 27 (9) cells must be the lexicographic sign, hence a total order. Every
`slices.BinarySearchFunc`/sort call over node keys must pass that comparator (query over all call sites).'''
D['C12'] = '''`tool/c12.go`. The insertion of each page tree is analysed from an *arbitrary* descent (the path of
nodes is a symbolic sequence of records) and arbitrary legal node columns. Each step of the write-back loop gives the
written node contents as sequence terms, which must equal: the old columns with the entry inserted at the searched
position; left ++ right (++ separator for inner nodes) after a split; the parent with separator and new page inserted
at the record's index. The climb (starts at the leaf, moves one up per split, ends with the rewrite of a node that fits
or with a new root) is checked on the loop head's and back edge's values. All in ~6 s. Trusted: binary search contract;
page size > 3 entries.'''
D['C13'] = '''Same run as C12, judged on the order of write events: child offsets of every written node, the
root pointer, and "shorter than before" rewrites must be preceded by the creation of the page they depend on, on
successful and failing paths; rejecting paths have no write events. The model takes writes to be durable in program
order; the multi-page update as a whole is not crash-atomic (see not applicable).'''
D['C14'] = '''Typestate of the mapping (events map/unmap/truncate/close as modelled system calls that may fail)
plus bounds: every slice of the mapping is within the length last mapped, and the receiver's fields after every
operation satisfy the position and length relation. Analysed for linux and darwin.'''
D['C20'] = '''Every slice, index, conversion and fixed-width read reachable from metadata decoding, with all input
bytes unconstrained, must be in range by the path's facts.'''

D['C24'] = '''`tool/c24.go`. Node readers, descents, iterator steps, ends and lookups are found by signature and role. (read) the
page read is the one named and the node gets the tree's parameters; (descent) each record appended to the path holds
the child selected by the binary search over the node's keys, with the right neighbour on equality, and recursive and
iterative descents are both followed through their loop invariant; (step/end/start) one application of the iterator
step from an arbitrary path gives, per level, either a move inside the node or a move into the adjacent node's near end,
and a refused step leaves positions that one opposite step restores; (lookup) result key and value have the same index
in the same node. In-range obligations on every column access. Oracle: the ordered-tree definition; ~1 s.'''

D['C06'] = '''`tool/c06.go`, `tool/ivl.go`. Encoder and decoder are run symbolically per shape of the structure. Every write
into the result becomes an item (position, length, value), nested by loop; every `Uvarint`, fixed-width read, byte load and
window of the input becomes an item of the decoder. Both lists are walked in step: an item must start where the previous
one ended (inside loops: next entry = end of this entry, first entry = end of what precedes), kinds and lengths agree, loops
make the same number of iterations; what is decoded is bound to what was encoded. Then each decoded field is compared, list
entries at a symbolic iteration, with the original. Totals are compared as sums over iterations, so `Size()` may be arranged
in any way. `SizeVarint` is decided by interval evaluation over the ten length classes (loop or formula). Put style, append
style, helpers, out-of-order writes and entry structs are all accepted. Cost ~10 s.'''
D['C09'] = '''`tool/c09.go`, `tool/lin.go`. Each method of the page file runs from an arbitrary ring (head and
length symbolic within their invariant) over a model of the underlying file (position, end, written bytes). Positions
in the ring are compared up to congruence modulo the capacity, so wrapping by `%`, by mask or by a test are the same;
loops that fill or scan the ring are read through the *iteration number* (every variable that moves by a constant per
iteration is entry value + c*iteration), which makes up-, down- and rotated loops equal. The duplicate test is accepted
if the path provably compared the offset with every entry (or every listed entry). Cost ~4 s for both builds.'''

D['C05'] = '''`tool/c05.go`. The file below a linked page is a model: a position, and a disk made of parts with known
content (the header with symbolic next pointer and count; optionally what an update has just written). Every operation
runs from an arbitrary page offset and slot number; joined runs of reads or writes are compared, as intervals, with the
slot extents. The extent of a slot is not written down in the check: it is where `SetRoot` writes for slot i, and for
i+1. Round-trips run the getter over the disk left by the setter; fresh pages run every getter over what the addition
wrote. Helpers, buffered or piecewise writes, `binary.Write` or `Put*` are the same events. Oracle: the list-of-slots
definition; about 2 s for both builds.'''

D['C25'] = '''`tool/c25.go`. The list of slots is abstract: `Next` yields a named successor, the end or a failure; decoding
yields `decoded:<field>` of the slot's bytes; encoding yields a sequence that remembers every field. Three ghost cells
(slot reached, "may be left", "end reached") are updated by the model and widened by the loop analysis together with the
program's own variables, so any way to write the scan (loop forms, helpers, a callback, a flag) is judged by the same
questions: is the next step taken from the slot reached last, is it known that this slot is not the one asked for, was the
end reached before a slot is added. The largest metadata a slot accepts is derived from `SetMetadata`, the size of the
metadata from its encoder with the total at its maximum. Oracle: the list-as-map definition; ~5 s.'''

D['C04'] = '''`tool/flow.go`, `tool/c04.go`. `flow` is a may-alias propagation over go/ssa: values, struct fields (by field), containers,
arguments, results, closures, interface calls (to every implementation) and library wrappers (`bytes.NewReader`, trimmed or
split slices). Conversions to strings and fresh copies end it. Sinks: element stores, `copy`, `clear`, `append` without a
clipped capacity, `slices`/`sort` reordering, `Put*`/`Append*`/`Read*` fillers, writes to a `bytes.Buffer` made of the data.
The command part follows the result of every opening call of package main to the argument of `Synchronize`, evaluates the
flags, and compares path roots (`flag.Arg`, variables) of all other calls that create, truncate, rename or remove. The
protection for read-only flags is evaluated with the engine. ~2 s.'''

D['C15'] = '''`tool/c15.go` on the same `flow` with every value followed (arithmetic, indices, lengths). Sources are listed library
calls, `select`, and what a range over a map carries from one iteration to the next or out of the loop (counters, constants
and slices sorted afterwards are not). Storage writers are the functions from which a positioned `Write` is reachable; their
call sites are the sinks, as are branches over a tainted condition that decide whether one is reached. One source at a time,
so that reports name it. Over-approximating; ~2 s.'''

D['C22'] = '''`tool/c22.go`. A list of entries is given by how many of them are smaller than, equal to and larger than the value of the
condition; everything else about them is symbolic. The real `Database.query` (and, in a second rule, the whole chain through the
builder) is evaluated on the lowered client with the index by contract: the page sought must be that of the field and the type the
value has, the tree must be made from the parts it belongs to, an iterator's place is decided by the key it is given (value of the
condition or of an outermost entry, with the smallest or largest place behind it), steps move it as C10 decides, a comparison of an
entry's value with the condition's has the sign of its side, and the data file is read at exactly the record of an entry. The
sequence yielded is compared with the sublist the operator asks for. Generators are modelled as the list of what they yield, so
helpers that yield (`yield*`, `for await`) are followed. ~2 s for 5 operators, 3 orders and 26 lists.'''

D['C23'] = '''`tool/c23.go`, sharing the system-call model of C14 (each call forks into success and failure). Constructors are run
with concrete flags (read-write, read-write-create, read-only), methods from any state. The fields that hold protection and
flags are learnt from the growing methods and every constructor must set them to what it maps with, whichever path it takes.
Oracle: the mmap contract; linux and darwin; ~3 s.'''

D['C16'] = '''`tool/c16.go` (with C26). The decoder is an automaton over an abstract well-formed document: position (before a key, key,
value, end of the object, inside a skipped array), open objects, open brackets and square brackets, the last key and token, and
the offset behind the last token, all ghost cells widened with the program's variables. `Token` forks into every token that may
follow and a failure. The object handler is analysed for an arbitrary path; a recursive call is replaced by its contract
(whether the handler consumes the closing brace itself is found out first). Loops over the constant list of types are followed
one by one. At each tree insertion the index (name, type), the width, key and place are compared with the ghost value; the key
is compared with the outcome of running the tree's own `Parse` on the same token. Whether everything was inserted is asked when
the next key or the end is read. CSV: the record is an abstract sequence, the text of a field one of int/float/bool/other.
Oracle: the automaton; bounds: none on size or depth; ~8 s.'''

D['C26'] = '''Same walk as C16; only the error and panic outcomes are judged: an error is accepted on a path on which the decoder, the
index or a conversion of a malformed number failed, or the record did not begin with a brace. ~8 s.'''

D['C07'] = '''`tool/c07.go`, the first check on both languages. `tool/ts/front.js` type-checks `/repo/src` with the installed TypeScript
compiler and lowers it to the engine's IR (promises are resolved in place, `try`/`catch` become catch edges, `yield` an event,
closures and array callbacks are inlined as loops); `tool/ts.go` gives objects, arrays, typed arrays, `DataView` and numbers a
meaning. The Go writers are executed first (slot layout of C05, `MarshalBinary`), which yields the bytes as terms over the
page, slot and field values; the client is then run on exactly those bytes through a resolver that hands out the range it is
asked for. Oracle: the value the Go side put in, and Go's own `Next`. All values are symbolic; page numbers are bounded by 2^48
(numbers are doubles). The enumerations are compared by name and by value. ~3 s.'''

D['C10'] = '''`tool/c10.go`. Order: two byte strings are equal, one is a prefix of the other, or they first differ at a skolem place p (all
below p equal, which a branch hook states for every element compared); loop invariants against p decide the sign, for the comparison
of bytes and, times nine signs of offset and length, for a search among one key. Search: the comparator is replaced by its contract
relative to a skolem place p of the target in a list of any length; invariants `i ≤ p ≤ j` come from candidate inequalities.
Walks: a tree is the pages it is read from: the resolver call must ask for the page of the root or of child i of a node already read
(0 ≤ i < its size), whose decoding is replaced by a node of symbolic size, keys and pointers; a search in it returns its symbolic
position, found or not. The client's real `iter`, `next`, `prev`, `getKey`, `getPointer`, `find`, `first`, `last` are then
evaluated, recursion and loops followed path by path, and each outcome is compared with an odometer over the node sizes that the
facts of the path decide. ~6 s for depth ≤ 3 and two steps, 50 s for depth ≤ 4 and three steps.'''

D['C11'] = '''`tool/c11.go`. Varints: for each of the ten lengths a varint can have, the bytes are symbolic (continuation mark on all but the
last, anything behind it) and `decodeUvarint` must return the sum of the low seven bits at powers of 128 and the length, as an
equality of terms. Nodes: the Go `MarshalBinary` is evaluated on a node with n symbolic keys and pointers (leaf or inner, keys by
reference or stored), which yields the page as a sequence of pieces (`le4(-n)`, `uvarintbytes(offset)`, …); the client's
`fromMemoryPointer` is evaluated on exactly those pieces, its loops followed while the facts decide the test, reading the varint of
a piece by the contract just proved. Oracle: the terms that went into the Go node. ~10 s for n ≤ 4, 2.5 min for n ≤ 8.'''

D['C21'] = '''`tool/c21.go`. Cache: the closure `cache()` returns is run on histories of requests with symbolic ranges in a symbolic file, over a
resolver that answers with the piece of the file it was asked for; the answer must be that piece of the sequence, for every
placement of the ranges to each other (the comparisons fork). Requests: `requestRanges` is run with `fetch` replaced by a response
of a chosen status, content type and range; the `Range` header is taken apart into constants and the terms of the starts and ends,
and the answers are compared with the terms that stand for the bodies and total lengths of the responses or parts. The readers
below (`DataFile.get`, `forUrl`) are run the same way. Stream: `parseMultipartBody` is run over a stream whose reads fork into "a
piece" and "at its end"; a read after the end is the violation (loops by fixpoint, any number of pieces). ~2 s.'''

D['C17'] = '''`tool/c17.go`. One symbolic value (a text, a number, true, false, null) is put through Go's parser (a decoder that yields
it as a token), through `processWhere`, and through the client's node reader on a page of one key by reference whose text has that
value; the byte sequences the three build are compared as terms (`be8(Float64bits(x))`, the UTF-8 of the text, one byte, none), and
the type of the condition with the number Go's enumeration gives the type. The page list is a contract (metadata and next of page i
of k); names stay symbolic, types run over all values of the enumeration (over those that matter for three and more pages), loops
are followed path by path and states that differ in what they found are not joined. Found pages are compared with the list. For the
list of fields, all patterns of equal and different names. Selections run on a record with the fields a and b of arbitrary value.
~4 s. Numbers and booleans of CSV columns by reference are left out: C16 reports that their width is written wrongly.'''

D['C18'] = '''`tool/c18.go`. A heap of n entries is built with symbolic distances of which only the min-max order is assumed (n constraints
`d_i ≤ d_j`), distinct ids and the map of their places; then the operation is followed over go/ssa, path by path, each comparison of
distances adding an order fact (a difference domain; floats are treated as members of a total order). States are never joined, so
what the comparisons told is kept. Afterwards the same constraints must be implied, the entries must be the multiset expected, and
the map must hold their places and nothing else. Since the invariants are assumed and re-established, histories of any length
follow. n ≤ 10 for everything, 16 for the pops and changed entries from place 4 on, 33 for inserting and peeking (deep enough for
an entry to rise or sink twice); 16 for everything in thorough. ~13 s, 50 s thorough. Two defects were found and repaired: a clone
shared its items with the original, and an item whose distance grew could come to rest above a farther (below a nearer) one.'''

D['C19'] = '''`tool/c19.go`. Only exported functions are driven: `NewHnsw`, then `InsertVector` at chosen levels (the one conversion of a float to
an integer, that of the level drawn, yields the level of the history), `KnnSearch`, and `Neighborhood`, `GetFriendsAtLevel`,
`NumLevels`, `Flush` to look. `EuclidDistance` of two vectors is a symbol for the pair; ids, levels, lists and maps are concrete on
every path, and every comparison of distances adds an order fact (the heaps of C18 run for real). After each insertion on each
path the lists of all vectors are compared with the oracle; "nearest" means that the facts imply the order. `AddNode` is run with
the two trees replaced by recorders that fork into success and failure. 9 histories of three vectors for complete lists, 4 of
three and four vectors for pruned lists, three more of four vectors in thorough. ~25 s, 55 s thorough. Three defects were found and
repaired: a vector linked with itself, the highest level of a friend overwritten by a lower one, a search not checking the
dimension.'''

D['C27'] = '''`tool/c27.go`, `tool/c27ts.go`, `tool/text.go`. A text is a list of symbolic characters, each known only by its kind
(a range of code points: small letter, capital, digit, blank, other ASCII, control, three and four bytes in UTF-8, the
latter two UTF-16 units); the domain gives byte offsets, UTF-16 places, conversions, concatenation, case and regular
expressions on characters their meaning, and fails ("could not decide") where a kind does not settle a test. All texts of
kinds up to the stated length are followed through `BuildNgram` (go/ssa) and `NgramTokenizer.tokens` (IR of the client);
the oracle cuts the list of kinds itself. Both sides are held against the one oracle, so that what is searched for is what
is indexed. One text enters as not yet normalised: reading it before NFKD is a violation. Cost: 20 s. A test cannot reach
this because the kinds that matter (several bytes, surrogates, short words, marks inside words) combine.'''
