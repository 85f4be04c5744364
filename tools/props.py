"""The properties: single source of properties.jsonl, MANIFEST.json and the
property table of DESIGN.md (tools/mkdocs.py writes them)."""

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, technique, how, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, how=how, note=note))


H, I, S, F, C = "histories", "inputs", "schedules", "fault_sequences", "configurations"
NOTEST = "The repository's six stable tests do not touch this"

# ---------------------------------------------------------------- containers
p("C01", "Heap: every value comes out exactly once, best first",
  "Whatever is pushed into a heap comes out exactly once, the largest (or, for a min heap, the smallest) of what is inside first; its size, emptiness, top and buffer agree with its content, and popping an empty heap reports failure. "
  "The slice forms keep the same multiset of values: making, pushing and popping leave a valid heap, the validity check accepts exactly the valid heaps, heap sort returns ascending order for a max heap and descending order for a min heap, and reversing inverts the order. "
  "A heap that is initialised again is empty and obeys its new order.",
  [I, H], "for all int values with any duplicates, both orders, all slices and all histories of push, pop and re-initialisation",
  "TestHeap sorts and drains one fixed slice; it never mixes pushes and pops, empties the heap, uses duplicates at scale or checks the heap shape after each step.",
  ["stl/heap.gp_int.go", "stl/functorcmp.gp_int.go"], [("adjustUp/adjustDown hole moving", "stl/heap.gp_int.go"), ("CreateByBool order selection", "stl/functorcmp.gp_int.go")],
  ["IntHeap methods"], "lock-step runtime monitor against a reference priority queue",
  "Sections run every slice of up to 8 small values, random slices of up to several thousand values, and random push/pop histories in lock-step with an independent sorted multiset; after each step the whole buffer is checked for heap shape and multiset equality.",
  "exploration: exhaustive over small slices, random beyond; trusts the reference multiset in the harness")

p("C02", "Bounded heap: keeps the n best of everything pushed",
  "A heap created with a limit n > 0 never holds more than n values, and after any pushes it holds exactly the n smallest values pushed since it was last drained if its top is the maximum, or the n largest if its top is the minimum, each with its multiplicity. "
  "Pops between pushes take out the top only, and a limit of zero or below means no limit.",
  [I, H], "for all limits, both orders and all histories of pushes and pops with duplicates and with values equal to the top",
  "No test creates a bounded heap.",
  ["stl/heap.gp_int.go"], [("Push replaces the top when the new value is better", "stl/heap.gp_int.go")],
  ["IntHeap.Push/Pop/Buffer"], "lock-step runtime monitor against a reference top-n",
  "Histories of pushes (heavily biased to duplicates and to the current top) and pops are followed by a reference that keeps the n best by sorting; the buffer's multiset, size and top are compared after every step. All sequences of up to 6 values over 4 keys are enumerated for limits 1..4.",
  "exploration: exhaustive over small sequences, random beyond")

p("C03", "Stack: last in, first out",
  "A stack returns its values in exactly the reverse order of pushing, each once; top, size and emptiness always agree with the content, and popping or reading an empty stack reports failure. "
  "Clearing or initialising empties it and leaves it usable, whatever buffer size it was created with.",
  [H, C], "for all histories of push, pop, top, clear and init from any initial buffer size",
  "No test uses the stack.",
  ["stl/stack.gp_int.go"], [("slice append and re-slice", "stl/stack.gp_int.go")], ["IntStack methods"],
  "lock-step runtime monitor against a reference sequence",
  "Random histories and all operation sequences of length 8 run in lock-step with a slice.", "exploration")

p("C04", "Queue: first in, first out across wrap-around, growth and shrinking",
  "A queue returns its values in exactly the order of pushing, each once, however its ring buffer wraps, grows or shrinks in between; front, back, size, emptiness and capacity always agree with the content, and popping or reading an empty queue reports failure. "
  "Shrinking loses nothing and reports true exactly when the capacity became smaller.",
  [H, C], "for all histories of push, pop, shrink, clear and init from any initial buffer size, in every position of the data in the buffer",
  "No test uses the queue.",
  ["stl/queue.gp_int.go"], [("ring buffer with head, tail and doubling", "stl/queue.gp_int.go")], ["IntQueue methods"],
  "lock-step runtime monitor against a reference sequence",
  "Every (capacity, head, size) position of buffers of 1..33 cells is constructed and then grown, shrunk and drained; random histories with phases of filling and draining run in lock-step with a slice.",
  "exploration: exhaustive over buffer positions up to the stated capacity")

p("C05", "Deque: both ends behave as one sequence",
  "A double-ended queue behaves as one sequence to which values are added, and from which they are taken, at both ends, however its ring buffer wraps, grows or shrinks in between; front, back, size, emptiness and capacity always agree with the content, and popping or reading an empty deque reports failure. "
  "Shrinking loses nothing and reports true exactly when the capacity became smaller.",
  [H, C], "for all histories of pushes and pops at both ends, shrink, clear and init from any initial buffer size, in every position of the data in the buffer",
  "No test uses the deque.",
  ["stl/deque.gp_int.go"], [("ring buffer with head, tail and doubling", "stl/deque.gp_int.go")], ["IntDeque methods"],
  "lock-step runtime monitor against a reference sequence", "As C04, with operations at both ends.",
  "exploration: exhaustive over buffer positions up to the stated capacity")

p("C06", "Doubly linked list: each operation has its documented effect on one sequence",
  "After any sequence of list operations (pushing, inserting, popping, removing, moving, rotating, splicing, setting, clearing, reversing) the list holds exactly the nodes and values a sequence would hold, in that order, forwards and backwards, with right ends and visitors that see each node once and can turn around; spliced-in lists are left empty. "
  "Operations return the node or value they acted on; nil arguments, removed nodes and positions the node already has change nothing and are reported as such. "
  "A node is valid for, or reachable in, a list exactly if it is in it.",
  [H], "for all histories of operations on lists of any length with any choice of nodes, including the ends, neighbours and the node itself",
  "No test uses the list.",
  ["stl/list.gp_int.go"], [("circular links kept by insert, remove and move", "stl/list.gp_int.go")], ["IntList, IntListNode and visitor methods"],
  "lock-step runtime monitor on node identities and links",
  "All pairs (thorough: triples) of operations with all node arguments on lists of 0..6 nodes, and random histories of 120 operations; after every operation all forward and backward links, values, ends and visitors are compared with a reference sequence of node identities.",
  "exploration: exhaustive over operation pairs on small lists")

p("C07", "List sort: ordered, stable, no node lost",
  "Sorting a doubly or singly linked list puts its own nodes into ascending order of value, keeps nodes of equal value in their previous order, and neither loses nor repeats a node; the list works as before afterwards. "
  "Reversing puts the same nodes into the opposite order.",
  [I], "for all lists of any length and any distribution of values",
  "No test sorts a linked list.",
  ["stl/list.gp_int.go", "stl/slist.gp_int.go"], [("bin merge sort", "stl/list.gp_int.go"), ("bin merge sort", "stl/slist.gp_int.go")], ["Sort, Reverse of both list types"],
  "runtime monitor comparing node identities with a stable reference sort",
  "Every list of up to 6 (8) values over 4 keys, every length 0..300, lengths around powers of two, and lists of up to 100000 nodes in several orders.",
  "exploration: exhaustive over short lists")

p("C08", "Singly linked list: each operation has its documented effect on one sequence",
  "After any sequence of operations (pushing, inserting, popping, removing, moving, splicing, setting, clearing, reversing) a singly linked list holds exactly the nodes and values a sequence would hold, in that order, with right length, tail, front and visitor. "
  "Operations return the node or value they acted on; nil arguments and nodes that are not in the list change nothing and are reported as such. "
  "Validity, reachability and cycle detection are exact, also on chains that run into a ring: a cycle is reported if and only if the chain of nodes enters one.",
  [H, I], "for all histories of operations with any choice of nodes, and all chains with or without a cycle of any length",
  "No test uses the singly linked list.",
  ["stl/slist.gp_int.go"], [("dummy head and next links", "stl/slist.gp_int.go"), ("slow/fast pointers", "stl/slist.gp_int.go")], ["IntSList, IntSListNode and visitor methods"],
  "lock-step runtime monitor on node identities and links", "As C06 for the singly linked list, plus every tail/ring shape up to 40 nodes for cycle detection and reachability.",
  "exploration: exhaustive over operation pairs on small lists")

p("C09", "Sort slices: indexed access, insertion and removal as on a sequence",
  "A sort slice holds exactly the sequence that pushes, inserts (before an index inside, at the end for an index outside), removals and pops produce; removals and reads with an index outside report failure (the must variant panics) and change nothing. "
  "Sorting leaves the same elements in ascending order; counts returned by push and insert are the new length.",
  [H, I], "for all histories of operations on slices of any length and spare capacity, with any index including negative ones and beyond the end",
  "No test uses the sort slices.",
  ["stl/sort_slice.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go"], [("slice shifting", "stl/sort_slice.gp_int.go")], ["IntSortSlice and IntTreeNodeSortSlice methods"],
  "lock-step runtime monitor against a reference slice", "All sequences of two (thorough three) operations from every length 0..4 and spare capacity 0..2 with indices -1..n+2, and random histories, for both generated types.",
  "exploration: exhaustive over short sequences")

p("C10", "Tree: children, collection and visiting agree with the structure built",
  "A tree node has exactly the children that additions (at an index inside, or last for an index outside), removals and sorting give it, in that order, and looking up or removing an index outside reports failure. "
  "Collecting all values and visiting forward yield every node of the subtree exactly once, parents before their children and siblings in order; visiting backward yields the opposite order, and a visitor can turn round at any node strictly inside the walk; a visitor that is at no node gives the zero value.",
  [H, I], "for all tree shapes and all histories of adding, removing, re-attaching and sorting children",
  "No test uses the tree.",
  ["stl/tree.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go"], [("visitor stack of parents and brother indexes", "stl/tree.gp_int.go")], ["IntTreeNode and visitor methods"],
  "lock-step runtime monitor against a reference tree", "Every ordered tree of 1..9 (11) nodes is built and visited in both directions and to and fro; random histories re-shape trees and compare after each step.",
  "exploration: exhaustive over small shapes")

p("C42", "Comparison functors: names, values and orders correspond",
  "A comparison functor obtained by name, by flag or from another functor orders values ascending (lesser, the default) or descending (greater) strictly, prints as its name, and is obtained again by that name; an unknown name panics.",
  [I], "for all pairs of values including extremes and all names",
  "No test creates a functor by name.",
  ["stl/functorcmp.gp_int.go", "stl/functorcmp.gp_#inttreenodeb60b.go"], [("name and flag switch", "stl/functorcmp.gp_int.go")], ["CmpInt, CmpIntTreeNode"],
  "runtime monitor against the integer order", "Random and extreme pairs under every way to make a functor of both generated types; strictness and irreflexivity are checked.",
  "exploration")

# ---------------------------------------------------------------- sync
p("C11", "Spin lock: mutual exclusion and hand-over",
  "At most one goroutine is between a return of locking and its unlocking; what one holder wrote is seen by the next, and a waiter gets the lock once the holder releases it. "
  "Unlocking a lock that is not held panics and leaves the lock usable, and a waiter only gives up (by a panic) after spinning for long on a lock that stays held.",
  [S, H], "for all interleavings of any number of goroutines locking and unlocking",
  "No test uses the spin lock; a test would see only the interleavings it happens to get.",
  ["sync/spinlock.go"], [("compare-and-swap on the state word", "sync/spinlock.go")], ["SpinLock.Lock/Unlock"],
  "race detector plus online mutual-exclusion monitor under stress with injected delays",
  "Stress rounds of 2..6 goroutines with random delays inside and outside the critical section under the Go race detector; half of the rounds carry an atomic owner monitor, the other half rely on plain data only so that the race detector judges the lock's ordering; counters check lost updates; sequential histories check the panics.",
  "exploration: interleavings seen are counted; trusts the race detector's happens-before")

p("C12", "Read-write spin lock: readers share, writers exclude, waiters get in",
  "A writer is never inside together with another writer or a reader, any number of readers are inside together while no writer is, and what a writer wrote is seen by whoever enters next. "
  "Everyone waiting gets in once those who stand in the way have left, in any order of arrivals and departures, a writer that waits is not passed by readers that arrive after it, and releases that match no acquisition panic; a waiter only gives up (by a panic) after spinning for long on a lock that stays held, and leaves the lock to its holder.",
  [S, H], "for all interleavings of any number of readers and writers",
  "No test uses the lock.",
  ["sync/spinrwlock.go", "sync/spinlock.go"], [("reader count offset by a writer", "sync/spinrwlock.go")], ["RWSpinLock.Lock/Unlock/RLock/RUnlock"],
  "race detector plus online reader/writer monitor under stress with injected delays",
  "As C11 with readers inside together, writers waiting behind readers, and readers and writers waiting behind a writer; a pair of plain fields written under the lock exposes torn reads and lost updates. Readers that come and go past readers that stay show whether a waiting writer is passed; waiters are let give up while the holder stays.",
  "exploration: interleavings seen are counted")

# ---------------------------------------------------------------- hash
p("C13", "Hash methods: the digests of the standard algorithms",
  "The digest of any byte string under MD5, SHA-1, SHA-256, SHA-512, CRC-32 (IEEE) or CRC-64 (ISO) equals that of the standard algorithm, in every way to compute it: hash objects fed in any pieces, lower-case hex strings, and strings prefixed with the length in ten digits and a dash. "
  "Reading a digest appends it to the given prefix without disturbing the object, resetting starts afresh, objects are independent of each other, and an unknown method panics.",
  [I, H], "for all byte strings, all ways to split them and all histories of write, sum and reset",
  NOTEST + "; package hash has no tests.",
  ["hash/hash.go"], [("method switch", "hash/hash.go")], ["HashMethod.New, StringHash, StringHashL, New"],
  "runtime monitor against the standard library's digests", "Random contents of 0..3000 bytes under every method and random histories of its objects.", "exploration; trusts Go's standard digests")

p("C14", "Fingerprint: a hash object over MD5, SHA-1, CRC-64 and size",
  "The fingerprint of any byte string is 24 bytes: the low 48 bits of its size (or of the size it was overridden with), then bytes 4..10 of its MD5, 7..13 of its SHA-1 and 1..7 of its CRC-64, and its text is the same as four dash-separated hex groups. "
  "It behaves as a hash object: independent of how the data is split, appending to the given prefix, undisturbed by being read, and starting afresh when reset; contents that differ have different fingerprints.",
  [I, H], "for all byte strings, all ways to split them, size overrides and histories of write, sum and reset",
  NOTEST + ".",
  ["hash/finger_print.go"], [("three digests in parallel and a byte count", "hash/finger_print.go")], ["Fingerprint methods"],
  "runtime monitor against a fingerprint composed from standard digests", "Random contents in random pieces with resets and overrides; near-equal contents must differ.", "exploration")

p("C15", "None-hash: unique digests, also when made concurrently",
  "Every object of the none method has its own 4-byte digest, different from those of all others of the process, also when they are made by many goroutines at once. "
  "What is written or copied into it does not change it, it consumes all bytes written without error, and reading appends the digest to the given prefix.",
  [S, H], "for all interleavings of goroutines making none-hashes and all histories of one",
  NOTEST + ".",
  ["hash/none_hash.go"], [("atomic counter", "hash/none_hash.go")], ["NewNoneHash, NONE.New, StringHash of NONE"],
  "race detector plus offline uniqueness checker over recorded digests", "2..6 goroutines make thousands of objects under the race detector; all digests of the process are collected and checked for repetitions.", "exploration; uniqueness is claimed below 2^32 objects")

# ---------------------------------------------------------------- io, ini
p("C16", "Multi-destination copy: every destination gets it all or an error is reported",
  "A copy that reports no error has given every destination exactly the bytes of the source, in order and once, and reports their number; an end of the source is no error. "
  "If the source or any destination fails, or a destination takes less than it was given without an error, the copy reports that error (a short write for the latter), stops writing to a destination that failed, and no destination holds anything but a prefix of the source.",
  [I, F], "for all sources (any piece sizes, empty reads, data together with the end, sources that can write themselves), any number of destinations, any buffer, and faults at any byte of any of them",
  NOTEST + "; package io has no tests.",
  ["io/io.go"], [("read loop with a write per destination", "io/io.go")], ["Copys, CopysBuffer"],
  "fault injection at every offset with online prefix monitors on every destination",
  "Random transfers with injected faults, plus every fault offset, kind and destination of transfers of up to 24 bytes; destinations check prefix and order as they are written.",
  "exploration with enumerated fault offsets on small transfers; a buffer of length zero is not given")

p("C17", "INI files: what a document says is what lookups give",
  "Loading a document yields exactly its sections and, per section, its keys with the last value given, with blanks around lines, keys and values removed; comment lines (beginning with a semicolon), blank lines, lines before the first section and lines without a key are ignored, a key without an equals sign has an empty value, and only the first equals sign separates. "
  "Lookups of anything absent give the caller's default, a section that is absent has no keys, a file that is missing or cannot be read to its end is an error, and lines of any length are read whole, including the last one without a line end; no file is left open.",
  [I, F], "for all documents, of any line length and line ending, and read faults at any byte (what was read completely before still counts)",
  NOTEST + "; the ini test is an empty stub.",
  ["encoding/ini/ini.go"], [("line scanner", "encoding/ini/ini.go")], ["New, Load, Sections, Keys, GetString"],
  "runtime monitor against a generating model and a reference parser", "Documents rendered from random models, arbitrary text over the format's characters against an independent parser, and read faults.", "exploration")

# ---------------------------------------------------------------- math
p("C18", "Number helpers: bits, bytes, words, digit groups, bools and floats",
  "Bit, byte and word access give exactly that part of a 32-bit value and an error for any index outside; a number's grouped text has its decimal digits with a comma before every third from the right. "
  "Bools convert to 1 and 0 and back (anything but zero is true), real and imaginary parts come back unchanged, and floats are equal if and only if they differ by less than one millionth.",
  [I], "for all values and indices",
  NOTEST + "; package math has no tests.",
  ["math/bits_bytes.go", "math/uint64.go", "math/bool.go", "math/float.go", "math/cplx/complex.go"], [("masking and shifting", "math/bits_bytes.go"), ("division by 1000", "math/uint64.go")], ["GetBit, GetByte, GetWord, CommaString, Bool.I, BToI, ItoB, Equal, Cplx64/128"],
  "runtime monitor against independent arithmetic", "Edge-biased values with every index inside and outside, and numbers around every power of ten and of two.", "exploration")

p("C19", "Ranged integers never leave their range",
  "A ranged unsigned integer (32 or 64 bits) always keeps minimum <= value <= maximum: creating or initialising it with values outside that order is refused and leaves it unchanged, and setting, incrementing or decrementing beyond a limit reports an error and leaves the value unchanged; setting and stepping return the previous value. "
  "The arithmetic operations return the exact mathematical result without changing the value, or an error whenever that result lies outside the range, overflows the type or divides by zero. "
  "Membership tests, limits and text agree with the stored numbers.",
  [I, H], "for all values and limits of both widths, including the limits of the type, and all histories of operations",
  NOTEST + ".",
  ["math/range_uint32.go", "math/range_uint64.go"], [("overflow guards before the operation and verification after", "math/range_uint32.go")], ["RangeUint32 and RangeUInt64 methods"],
  "lock-step runtime monitor against arbitrary-precision arithmetic", "Random histories of 5..40 operations of both widths with arguments biased to the limits of range and type.", "exploration")

p("C20", "Integer square root of 32-bit numbers, rounded to nearest",
  "The integer square root of any 32-bit number is its real square root rounded to the nearest integer.",
  [I], "for all 2^32 inputs", NOTEST + ".",
  ["math/prime/prime.go"], [("shift-and-subtract root with final rounding", "math/prime/prime.go")], ["SqrtUint32"],
  "runtime monitor against exact integer comparison", "For every root k of the 32-bit range the values around k*k and k*k+k, where the rounded result changes (this covers every point at which a monotone function can go wrong), plus random values; thorough: all 2^32 values.",
  "exploration: quick covers every switching point, thorough is exhaustive")

p("C21", "Primality of every 32-bit number",
  "The primality test answers true for exactly the primes among all 32-bit numbers.",
  [I], "for all 2^32 inputs", NOTEST + ".",
  ["math/prime/prime.go", "math/prime/prime_data.go"], [("trial division by the table of primes below 2^16", "math/prime/prime.go")], ["IsPrime"],
  "runtime monitor against a sieve and deterministic Miller-Rabin", "Every number below 2^22, p*p and p*q for every prime p below 2^16 and its neighbours, products with random primes, the top of the range and random numbers.",
  "exploration: exhaustive below 2^22 and over all prime squares")

p("C33", "Random generators: deterministic per seed, inside bounds, safe to share",
  "Two generators of one seed give the same numbers, setting a seed returns the previous one and resumes its sequence, and a generator keeps producing new numbers. "
  "A number drawn between two bounds, given in either order, lies between them inclusively, below a maximum it lies below it, and every value of a small range and every part of a wide one can come up. Generators without a given seed start apart, within a process and from process to process. "
  "Goroutines sharing one generator each get numbers of its sequence, in order, none twice and none lost.",
  [S, I, H], "for all seeds, bounds of both widths and interleavings of goroutines sharing a generator",
  "The only test prints numbers.",
  ["math/rand/rand.gp_32.go", "math/rand/rand.gp_64.go", "math/rand/rand.go"], [("compare-and-swap on the seed", "math/rand/rand.gp_32.go")], ["Rand32T, Rand64T and package functions"],
  "race detector plus offline linearizability check of recorded draws", "2..5 goroutines draw from one generator; the recorded draws must be the sequential numbers, each once, in an order compatible with real time; one goroutine is also held up inside every draw while the others go on; bounds and seeds are edge-biased, wide ranges are drawn from until every eighth of them came up, and child processes report their first draws.",
  "exploration; which numbers a seed produces is not prescribed, no statistical quality is claimed")

p("C34", "Random strings: exact length, upper-case letters, safe to share",
  "A random string has exactly the requested number of characters, all upper-case letters, each of which can come up, and generating it from many goroutines at once is safe; long strings do not repeat, themselves or each other, within a process or between processes.",
  [S, I], "for all lengths and rules and interleavings of goroutines", "The only test prints strings.",
  ["strings/rand.go", "math/rand/rand.gp_32.go"], [("shared lock-free generator", "strings/rand.go")], ["strings.Rand"],
  "race detector plus online content monitor", "Every rule with lengths 0..3000, partly from several goroutines.", "exploration; the rule argument is ignored by the code today and nothing is claimed about it")

# ---------------------------------------------------------------- unsafe
p("C26", "String/bytes views: same bytes, no copy, alive as long as used",
  "Viewing a string as bytes or bytes as a string gives exactly the same content and length at the same address without a copy, so that a change of the bytes shows in the string; the byte view has no spare capacity. "
  "A view keeps its bytes alive: it stays intact across garbage collections even when nothing else refers to them. "
  "A string constant is never said to be writeable, a buffer of a megabyte or more made at run time is, and asking by address, bytes or string gives the same answer.",
  [I, S], "for all contents and lengths including empty ones, and garbage collections at any time",
  "The test compares one literal and one small buffer and never collects garbage.",
  ["unsafe/string.go"], [("header conversion", "unsafe/string.go")], ["StringBytes, BytesString, StringPointer, BytesPointer, Writeable"],
  "pointer-checking build (checkptr) plus content monitors across forced collections", "Random strings and windows viewed both ways in a build with -d=checkptr=2, and views that outlive their origin while garbage is made and collected.", "exploration")

# ---------------------------------------------------------------- crypto
p("C22", "Padding: whole blocks, right filler, undone exactly, caller's memory untouched",
  "Padding appends 1 to block-size bytes so that the length becomes a multiple of the block size: zeros for zero padding, the number of bytes appended for PKCS 5 and 7; the data in front is unchanged, and neither the input nor memory behind it in the caller's buffer is modified, by padding or by removing it. "
  "Removing the padding from padded data gives back the original (for zero padding: without trailing zero bytes), and the string form pads like the byte form.",
  [I], "for all data, lengths, spare capacities and block sizes 1..255", NOTEST + "; package crypto has no tests.",
  ["crypto/padding.go", "crypto/aes/aes.go"], [("append behind a capped slice", "crypto/padding.go")], ["ZeroPadding, PKCS5Padding, PKCS7Padding and their inverses"],
  "runtime monitor with guard bytes around every buffer", "Every length 0..80 with block sizes 1..255 and random data in guarded buffers with and without spare capacity.", "exploration; unpadding of data that is not padded is not claimed")

p("C23", "AES: the standard CBC ciphertext, and decryption gives back every message",
  "An encrypter and a decrypter of one key, both used for a sequence of messages, give back every message of any length unchanged; each ciphertext is that of AES-CBC with PKCS 7 padding, the first 16 key bytes as the initial vector and one chain running through all messages. "
  "Exactly keys of 16, 24 and 32 bytes are accepted; inputs and key are not modified, later changes to the caller's key or messages and later messages do not change earlier results, and different objects do not disturb each other.",
  [I, H, S], "for all keys, messages and sequences of messages", NOTEST + ".",
  ["crypto/aes/aes.go"], [("CBC block mode over PKCS 7 padding", "crypto/aes/aes.go")], ["AESEncrypter, AESDecrypter"],
  "runtime monitor against an independently assembled AES-CBC", "Random keys and message sequences through both byte and string forms, compared with crypto/aes driven block by block.", "exploration; trusts Go's AES block")

p("C24", "Triple DES: the standard ECB ciphertext, and decryption gives back the data",
  "Encrypting gives the 3DES-EDE ciphertext, block by block, of the zero-padded data (always at least one byte of padding) under the key cut or zero-filled to 24 bytes, and decrypting that gives back the data (without trailing zero bytes). "
  "Decrypting an empty text or one that is not made of whole blocks is an error, and neither data nor key are modified.",
  [I], "for all data and keys of any length", NOTEST + ".",
  ["crypto/ecb/ecb.go", "crypto/padding.go"], [("encrypt-decrypt-encrypt per block", "crypto/ecb/ecb.go")], ["TripleDesEncrypt, TripleDesDecrypt"],
  "runtime monitor against the standard library's triple DES", "Random data and keys of 0..40 bytes compared with crypto/des; every truncated ciphertext length.", "exploration; trusts Go's DES")

p("C25", "RSA: generated keys work, round trips hold, forgeries are refused",
  "Generated key pairs have the requested size and fit together, and a size no key can have is an error; whatever the public side encrypts (up to the key size minus 11 bytes, longer is an error) the private side alone decrypts to the same bytes, and a signature verifies for exactly the data, hash and key it was made with. "
  "Anything that is not a fitting PEM key is refused with an error (the must variants panic). "
  "The text helpers invert each other: encoding and decoding, bytes and hex; broken input decodes to nothing; and the salted hash is the SHA-512 of five rounds of key, data, key, with its string form in hex.",
  [I, F], "for all messages, key sizes and corruptions of messages, signatures and keys",
  "The rsa test needs a package that did not compile and checks one message.",
  ["crypto/rsa/rsa.go", "crypto/rsa/code.go", "crypto/ecb/ecb.go"], [("PKCS 1 v1.5", "crypto/rsa/rsa.go"), ("3DES and base64", "crypto/rsa/code.go")], ["GenRsaKeys, RsaClient, RsaServer, Encode*, Decode*, Hash*"],
  "runtime monitor with corruption faults, cross-checked by the standard library", "Random keys, messages and every kind of corruption (bit flips, truncations, other keys, other hashes); the standard library reads every ciphertext and signature.", "exploration; trusts Go's crypto/rsa; encoding data that ends in zero bytes cannot be undone and is not claimed")

# ---------------------------------------------------------------- debug, reflect, factory, errors, time
p("C27", "Stack traces: every report names the frames the runtime unwinds",
  "A report of the current place or of a caller at a depth names exactly that frame's function, file and line, and nothing if the stack is not that deep; a stack list gives, in order, the frames from the requested depth on, up to 50. "
  "A failed assertion panics with such a list, a successful one returns true.",
  [I, "programs"], "for all call stacks, depths, recursion, closures, methods, deferred calls and goroutines",
  "TestDebug looks at the first function name of one stack.",
  ["debug/backtrace.go", "debug/assert.go"], [("runtime.Caller and runtime.Callers", "debug/backtrace.go")], ["Bt*, Caller*, Bts, CallStackList, CallStackInfo, Assert"],
  "runtime monitor comparing with the runtime's own unwinding at the same line", "Stacks of up to 120 frames of mixed kinds; each report is made on one line together with runtime.Callers and compared frame by frame.", "exploration")

p("C28", "Reflection helpers: fresh zero values and exact type questions",
  "A new value made from a sample is a pointer to a fresh zero value of exactly the sample's type, sharing nothing with the sample or other new values. "
  "Type equality, kind and the question whether a value is of a plain comparable built-in type (integers, floats and strings, not named types) are answered exactly as the language defines.",
  [I, "programs"], "for all sample types", "The test prints results for a few samples.",
  ["reflect/reflect.go"], [("reflect.New of the sample's type", "reflect/reflect.go")], ["New, IsSameType, Kind, IsCmpableInnterType"],
  "runtime monitor against the language's type identity", "A catalogue of about a hundred types plus types built at run time (arrays, slices, maps, structs, functions, channels, pointers) compared pairwise.", "exploration")

p("C29", "Factories: create with exactly the registered creator",
  "A factory creates a registered type with one call of exactly its creator, passing all arguments and returning its result, and returns nil for anything not registered. "
  "Registering reports an error for a type that has a creator or for a missing creator and changes nothing then, removing reports an error for an unknown type, and factories are independent of each other. A creator may use the factory itself, and its panic reaches the caller.",
  [H], "for all histories of registering, removing and creating", "The only test in the package is a stub about reflection.",
  ["factory/factory.go", "factory/factoryi.go", "factory/factorys.go"], [("map of creators", "factory/factorys.go")], ["FactoryS, FactoryI and package functions"],
  "lock-step runtime monitor against a map", "Random histories on both factory kinds and the package's own factory with recording creators.", "exploration")

p("C30", "Error registry: unique dense numbers that always find their name",
  "Every registered error gets the next number of 1001..9999, never one in use, also when goroutines register at once; after the numbers are used up registration fails with an error and an invalid number. "
  "A number finds the name it was registered with, its text contains number and name, errors made from it carry it and print that text (with their own formatted message behind it), wrapping any error gives one of the standard number with that error's text behind it, and numbers never handed out are reported as invalid; an error without a number prints as its formatted message. "
  "The list of all errors shows the count and every registered error in order, and reading is safe beside registering.",
  [S, H], "for all interleavings of registrations and lookups up to and beyond exhaustion", "Package errors has no tests (it did not compile).",
  ["errors/errors.go", "errors/with_id.go", "errors/with_id_string.go"], [("registry slice under a read-write lock", "errors/errors.go")], ["Reg, Get, String, New, Newf, StdErr, ShowAll"],
  "race detector plus offline uniqueness and density checker", "Goroutines register and look up under the race detector; all numbers of the process are recorded and must be dense and unique; the registry is driven to exhaustion.", "exploration")

p("C31", "Durations: text, units and parsing consistent with the standard library",
  "A duration below a day prints as the standard library prints it, and one of a day or more prints as whole days and the rest below a day, which together are exactly its value, so different durations print differently. "
  "Conversion to the standard type is exact, hours, minutes and seconds agree with the standard library, days and weeks are the value divided by theirs, parsing accepts and refuses what the standard library does with the same values, and the time since a moment is the elapsed time.",
  [I], "for all 64-bit durations and texts", "The test prints two durations.",
  ["time/duration.go"], [("split into days and rest", "time/duration.go")], ["Duration methods, ParseDuration, Since, RuntimeNow"],
  "runtime monitor against the standard library", "Edge-biased durations around units, days and type limits; texts are parsed back by an independent reader.", "exploration")

p("C32", "Time-stamp counter and CPU clock readings",
  "The time-stamp reading is the full 64-bit CPU counter: it lies between two independent readings of that counter taken around it and never goes backwards on one CPU. "
  "The clock reading is the CPU time of the process in microseconds, between two system readings taken around it, and never goes backwards. The runtime's current time lies between two readings of the standard clock taken around it.",
  [H], "for all moments", NOTEST + ".",
  ["time/rdtsc.go", "time/time_sys.go"], [("rdtsc instruction, clock()", "time/rdtsc.go")], ["RDTSC, Clock, RuntimeNow"],
  "runtime monitor bracketing each reading with independent readings", "Thousands of readings on a goroutine bound to one CPU, bracketed by the harness's own rdtsc and getrusage/clock_gettime readings, across carries of the lower half.", "exploration; amd64 with an invariant counter")

# ---------------------------------------------------------------- regable
p("C39", "Registered values: stable ids, exact lookups, atomic reads and writes",
  "Every value registered with a registry gets its own id, made of the registry's number and its own (8 and 24 bits that never touch each other), by which, and by whose object, its current value and name are found for ever; reads return the value of the last write, and concurrent reads and writes are atomic. "
  "Ids never handed out and their objects are invalid and give errors, never someone else's value. "
  "A registry refuses (by a panic) values beyond its limit, limits that are out of bounds or below what is registered are refused, and after registration is declared finished any further registration panics and changes nothing.",
  [S, H], "for all histories of creating registries, registering and limits, all 32-bit ids, and all interleavings of reads and writes", "Package regable has no tests (it did not compile).",
  ["regable/reg.go", "regable/regable.go"], [("per-record read-write lock", "regable/reg.go"), ("id composition", "regable/regable.go")], ["Uint32Reger, Uint32Id, Uint32Obj, FinishReg, MakeRegedId, ShowAllRegs"],
  "race detector plus offline atomic-register (linearizability) checker", "Histories in lock-step with a map; concurrent reads and writes of unique values are recorded with times and checked for register linearizability; invalid ids of every kind are probed.", "exploration; registering itself is not goroutine-safe by design and is done by one goroutine; a registry of limit n may be full at n-1")

# ---------------------------------------------------------------- fs
p("C35", "Paths: normal form, splitting, joining and relating are consistent",
  "A path object is the cleaned slash form of its text and cleaning it again changes nothing; splitting into all elements gives the root (if any) and each name once, and joining them, or the directory and the last element, gives the path back. "
  "Joining, extension, base, directory, prefix, pattern, absolute and relative forms are those of the standard path rules on the cleaned path; a relative path followed from its root leads back to the path. "
  "The working directory known to the package follows its own directory changes, and failing changes leave it.",
  [I, H], "for all path texts, roots, patterns and histories of directory changes", "Two tests print or compare a handful of fixed paths.",
  ["fs/file_path.go", "fs/fs.go", "fs/file_line.go"], [("cleaning on every assignment", "fs/file_path.go")], ["FilePath and its path methods, Joins, Split, FileName, Relate*, GoPath, WorkPath, Chdir"],
  "runtime monitor against an independent path cleaner and algebraic laws", "Random paths over slashes, dots, names, blanks and Unicode, compared with a cleaner and joiner written in the harness; directory changes in a scratch tree.", "exploration; POSIX paths")

p("C36", "Directory listings: exactly the entries the options ask for",
  "A listing of a directory returns exactly the files, directories or leaf directories its options ask for, each once, directly or in the whole tree, as names or full paths; symbolic links count as files and are not followed. "
  "A path that is missing, is no directory or contains a directory to be entered that cannot be read is an error, never an empty or partial result taken for complete. "
  "Statistics count directories, files and bytes of the tree (reporting what cannot be read), walking visits every entry once until it is told to stop, nothing is modified and nothing is left open.",
  [I, C, F], "for all trees, all combinations of options and all unreadable places", "Tests list the source directory and print the result.",
  ["fs/fs.go", "fs/file_path.go"], [("recursive directory reading", "fs/fs.go")], ["CollectSubs, GetLeafDirs, GetSubDirs, GetSubFiles, GetSubs, GetDeepFiles, Statistic, Walk"],
  "runtime monitor against an independent model of the tree, with permission faults", "Random trees written by the harness are listed with every combination of options as an unprivileged user; unreadable directories are injected.", "exploration; runs as an unprivileged user in a scratch directory")

p("C37", "Hash trees: content decides, names and order do not",
  "The hash of a file is the digest of salt and content, and that of a directory the digest of the salt and its children's hash texts sorted by size and hash, so it depends on the contents below but not on names or directory order; sizes add up and the tree has one node per entry with its path, children in that order; a symbolic link stands for what it leads to. "
  "The fingerprint does the same without salt, over the summed size. "
  "Any change of a content changes the root, a file or directory that cannot be read is reported as an error, nothing is modified and no file is left open.",
  [I, F], "for all trees, methods, salts, changes and unreadable places", "Tests hash the source directory and print the result.",
  ["fs/file_path.go", "fs/tree.gp_filehash38b3.go", "hash/finger_print.go"], [("bottom-up hashing over sorted children", "fs/file_path.go")], ["Hash, Fingerprint, FileHashTreeNode"],
  "runtime monitor against an independent bottom-up computation, with permission and read faults", "Random trees, renamed twins and mutated twins, every method and random salts, compared entry by entry; unreadable files and directories are injected.", "exploration; runs as an unprivileged user in a scratch directory")

p("C38", "Moving, renaming and linking act on the documented destination only",
  "Renaming, moving, copying, hard-linking and symbolic linking a path take a relative destination as relative to the source's directory and an absolute one as it is, report the destination's path (also on failure), and have exactly the effect of the system's operation on source and that destination (a symbolic link holds the source path as it is), touching nothing else; a failure is reported and changes nothing. "
  "Creating a file leaves a file there or reports an error.",
  [I, F], "for all trees, sources and destinations, present or missing", "No test moves or links a file.",
  ["fs/file_path.go", "fs/fs.go"], [("destination related to the source's directory", "fs/file_path.go")], ["Rename, Move, Link, Symlink, Copy, fs.Create"],
  "twin-tree differential monitor of the whole file tree", "Each operation runs on one tree and the system's operation on a twin; the complete trees (types, contents, links, modes) are compared afterwards.", "exploration; runs as an unprivileged user in a scratch directory; three known findings")

p("C43", "File sizes: the right unit and a correctly rounded number",
  "A file size prints as a number with three decimals, correctly rounded, and the largest unit of B, KB, MB, GB, TB, PB, EB (steps of 1024) of which it is at least one; setting and reading the number of bytes is exact.",
  [I], "for all 64-bit sizes", NOTEST + ".",
  ["fs/file_size.go"], [("unit search by shifting", "fs/file_size.go")], ["FileSize.String/N/Set"],
  "runtime monitor against exact rational arithmetic", "Values around every unit boundary and random values of every magnitude, parsed back with rationals.", "exploration")

p("C44", "Hash-tree containers: sort slice, tree and functors of file hashes",
  "The containers of file hashes behave as their integer counterparts: the slice as a sequence with failing accesses outside it, the tree with exactly the children built and a visitor that sees every node once in order forwards and backwards (the zero value at no node), functors ordering by size and then hash, and sorting leaving the same elements in that order.",
  [H, I], "for all histories, shapes and values", NOTEST + ".",
  ["fs/tree.gp_filehash38b3.go", "fs/sort_slice.gp_#filehashtreenodef199.go", "fs/functorcmp.gp_#filehashtreenodef199.go", "fs/file_path.go"], [("generated containers", "fs/tree.gp_filehash38b3.go")], ["FileHashTreeNode, its visitor, sort slice and functor, FileHash.Less"],
  "lock-step runtime monitor against reference containers", "As C09, C10 and C42 for the generated file-hash containers.", "exploration: exhaustive over small cases")

p("C45", "Source positions: file, line and function of the caller",
  "Asking for the current file and line, the file relative to the source root with its line, or the current function gives exactly those of the calling statement.",
  [I, "programs"], "for all callers: functions, methods, closures, deferred calls, goroutines", "A test prints one position.",
  ["fs/file_line.go"], [("runtime.Caller of the caller's frame", "fs/file_line.go")], ["FileLine, RelateFileLine, Func"],
  "runtime monitor comparing with the runtime's own position", "Calls from a catalogue of places compared with runtime.Caller on the same line.", "exploration")

p("C46", "File operations of paths have exactly the system's effect",
  "Operations of a path object that exist in the operating system (creating, opening, truncating, removing, making directories, changing modes, owners and times, reading links and information, resolving links) act on exactly that path and return what the system's operation returns, with the same kind of error, and touch nothing else.",
  [I, H, F], "for all trees, paths present or missing, modes, flags and histories of operations", "No test modifies the file system.",
  ["fs/file_path.go"], [("delegation to package os", "fs/file_path.go")], ["FilePathObject file operations"],
  "twin-tree differential monitor of the whole file tree", "Each operation is applied through the path object to one tree and through package os to a twin; results, error kinds and complete trees are compared.", "exploration; runs as an unprivileged user in a scratch directory")

# ---------------------------------------------------------------- templates
p("C40", "Container templates: code made from them behaves as the shipped containers",
  "Go code made from the container templates, from either form of a template (with placeholders or as a disabled Go file), compiles and behaves as the shipped int containers do: heap with either sift method, stack, queue, deque, doubly and singly linked list, sort slice and tree. "
  "This holds for basic types and for types with a Less method of their own, and for either default order; a default order of greater-first turns the sorting and heap orders round and changes nothing else.",
  [I, H, C], "for all element types, options and histories",
  "Templates are text: the compiler and the tests never see them. No test makes code from them.",
  ["stl/gp/heap.gp", "stl/gp/heap.gp.go", "stl/gp/stack.gp", "stl/gp/queue.gp", "stl/gp/deque.gp", "stl/gp/list.gp", "stl/gp/list.gp.go", "stl/gp/slist.gp", "stl/gp/slist.gp.go", "stl/gp/sort_slice.gp", "stl/gp/tree.gp", "stl/gp/functorcmp.gp"],
  [("conditional sections of the templates", "stl/gp/heap.gp"), ("order selection", "stl/gp/functorcmp.gp")], ["methods of the containers made from the templates"],
  "lock-step runtime monitors on code instantiated from the templates",
  "tools/gogp.py makes code from the templates of the working tree (its output on the shipped configuration is that of the shipped files); the monitors of C01-C10 and C42 run on int containers of both forms with both sift methods, and a smaller set of lock-step monitors runs on a struct type with its own Less, where equal keys stay distinguishable, for both default orders.",
  "exploration; trusts the small template expander; the GOGP_HasTail variant of the singly linked list is unfinished (its author says so in comments) and not claimed")

p("C41", "Templates without shipped code: mapping, lock-free queue, ring buffer, deque",
  "Code made from the remaining templates keeps its promises. The two-way mapping holds a one-to-one relation readable from both sides and refuses a key or a value it already has with an error, unchanged. "
  "The lock-free queue hands every pushed value out exactly once, last in first out, linearizably for any number of goroutines, reports failure only when empty, and its size is exact at rest, also after clearing. "
  "The ring buffer is a bounded first-in-first-out buffer that refuses pushes when full and pops when empty (its waiting forms wait instead), shared by any number of goroutines without losing, doubling or reordering a producer's values. "
  "The lock-free deque, used by one goroutine, behaves as one sequence with two ends.",
  [H, S], "for all histories and, for the lock-free queue, all interleavings",
  "Templates are text: the compiler and the tests never see them.",
  ["regable/gp/mapping.gp", "regable/gp/mapping.gp.go", "stl/gp/lfqueue.gp", "stl/gp/lfqueue.gp.go", "stl/gp/lfdeque.gp", "stl/gp/lfdeque.gp.go", "stl/gp/ringbuffer.gp.go"],
  [("compare-and-swap of the head", "stl/gp/lfqueue.gp"), ("ring indices", "stl/gp/ringbuffer.gp.go")], ["methods of the types made from the templates"],
  "race detector, exactly-once and linearizability checkers, lock-step monitors on instantiated templates",
  "Code made by tools/gogp.py runs under the race detector: stress rounds record pushes and pops with times, which an offline checker judges (exactly once, no value before its push, last-in-first-out consistent with a linearization); a goroutine held up inside every operation while others overtake it must still get it done; sequential histories run in lock-step with references.",
  "exploration; the lock-free deque is not claimed for several goroutines: it writes a slot before it owns it, by design of the unfinished template")

p("C47", "Registry and random templates: every kind made from them keeps its promises",
  "Code made from the registry template compiles for every kind it is made for (booleans, numbers, strings, any values; settable or constant; with or without names) and behaves as the shipped registry does: each value has one id that leads back to it and its name, directly and through its object; other ids are refused; a constant never changes; "
  "a settable value is safe for any number of goroutines; reversing a boolean is atomic; limits and the end of registration are obeyed. "
  "Code made from the random template gives, for either width, the numbers, ranges, replays and thread safety of the shipped generators.",
  [H, S, C], "for all kinds, histories and interleavings",
  "Templates are text: the compiler and the tests never see them.",
  ["regable/reg.gp", "regable/regable.go", "math/rand/rand.gp"],
  [("kinds selected by comment placeholders", "regable/reg.gp"), ("compare-and-swap of the seed", "math/rand/rand.gp")], ["types made from the templates"],
  "race detector, atomicity and lock-step monitors on instantiated templates",
  "Eleven kinds of registry and both generators are made from the templates beside copies of their packages; a lock-step model per kind, the atomic-register checker of C39, a parity check of concurrent reversals and the whole of C33 run on them under the race detector.",
  "exploration; trusts the small template expander")
