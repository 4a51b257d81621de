#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The statements live here so that they can be edited as text."""
import json, os
P = []
A = 'include/ktl/allocators/'
U = 'include/ktl/utility/'
K = 'include/ktl/containers/'

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

ALLOC_FILES = [A + f for f in ('linear_allocator.h', 'stack_allocator.h', 'mallocator.h', 'freelist.h', 'cascading.h', 'fallback.h', 'segragator.h', 'overflow.h', 'reference.h', 'shared.h', 'global.h', 'threaded.h', 'type_allocator.h')]

prop('C01', 'Live blocks are exclusively the client\'s and keep their contents',
     'Every successful allocation, from any allocator or composition of allocators, yields memory that is usable in full for the requested size and does not overlap any other block that is still outstanding. Its contents never change through any allocation or deallocation, successful or not, of other blocks, until the block itself is given back.',
     ['histories', 'inputs', 'configurations'], 'for every composition of allocators and every sequence of allocations and deallocations with any sizes (including exhaustion and reuse)',
     'The tests allocate one to three blocks of a few fixed sizes per allocator and rarely write to them; aliasing only appears after particular orders of frees, exhaustion and reuse.',
     ALLOC_FILES,
     [('bump pointer and rewind on LIFO free or when empty', A + 'linear_allocator.h: allocate/deallocate'), ('free chain threaded through returned blocks', A + 'freelist.h: allocate/deallocate'), ('one owner per block chosen by owns/size', A + 'fallback.h, ' + A + 'segragator.h, ' + A + 'cascading.h'), ('guards around each block', A + 'overflow.h: allocate')],
     [('bump offset', 'end of the used part of the arena', A + 'linear_allocator.h, ' + A + 'stack_allocator.h'), ('free chain', 'blocks given back', A + 'freelist.h')],
     ['return value of allocate', 'bytes of live blocks after every step'])

prop('C02', 'Every allocation is aligned for any standard object type',
     'Every block handed out by any allocator or composition, for every size and history and whichever heap facility the platform configuration selects, is aligned to the strictest fundamental alignment. This includes the memory that containers of any element type, and allocators that store other allocators on the heap, get from them.',
     ['histories', 'inputs', 'configurations'], 'for every composition, size, history and heap back-end selection',
     'The tests check alignment on a handful of sizes that are mostly already multiples of it, and only ever build one of the heap back-ends.',
     ALLOC_FILES + [U + 'alignment.h', U + 'aligned_malloc.h'],
     [('sizes rounded up to the alignment', U + 'alignment.h: align_to_architecture'), ('over-aligned heap memory', U + 'aligned_malloc.h: aligned_malloc'), ('guards whose size keeps the alignment', A + 'overflow.h')],
     observe=['return value of allocate modulo the alignment'])

prop('C03', 'Requests that cannot be satisfied fail cleanly and leave no trace',
     'A request that cannot be satisfied - too large, so large that computing its size overflows, or made when the underlying memory is exhausted - yields null, without exceptions, crashes or writes. Apart from one-time set-up on first use the allocator is left as it was before: outstanding blocks are intact and can be returned, no memory is held because of the failure, and later requests have the outcome they would have had without it.',
     ['inputs', 'histories', 'fault_sequences'], 'for every composition, every request size up to the largest representable, and every point at which the underlying heap can refuse memory',
     'The tests never inject heap failure and try only a few slightly-too-large sizes; sizes near the top of the range and failures inside nested compositions are not reached.',
     ALLOC_FILES + [U + 'aligned_malloc.h'],
     [('size checks before arithmetic', A + 'linear_allocator.h, ' + A + 'type_allocator.h, ' + A + 'overflow.h: allocate'), ('null checks of sources', A + 'cascading.h, ' + A + 'overflow.h, ' + A + 'fallback.h, ' + A + 'shared.h'), ('null on failure', U + 'aligned_malloc.h')],
     observe=['return values', 'live heap bytes and source-allocator bytes, compared with a twin that did not see the failures'])

prop('C04', 'Memory goes back to its source exactly once, with its original size',
     'Every block that a composition obtains from an underlying allocator or the heap is returned to that same source exactly once and with exactly the size it was obtained with, and never while the client still holds the memory it backs. Once the client has given back everything and the composition is destroyed, nothing obtained from any source remains outstanding.',
     ['histories', 'configurations'], 'for every composition and every client history that gives back what it was given, including exhaustion, refusals by the sources and destruction',
     'The tests use sources that do not record what they are given back, so a wrong size, a wrong source or a block never returned leaves no mark.',
     ALLOC_FILES,
     [('release of the free chain', A + 'freelist.h: destructor'), ('release of instances', A + 'cascading.h: deallocate, destructor'), ('size including guards', A + 'overflow.h: deallocate'), ('owner by owns/size', A + 'fallback.h, ' + A + 'segragator.h'), ('bytes per object', A + 'type_allocator.h'), ('last handle frees', A + 'shared.h')],
     observe=['allocate/deallocate calls received by recording source allocators', 'C heap calls'])

prop('C05', 'Ownership queries answer exactly for live and foreign memory',
     'Where an allocator can be asked whether it owns an address, the answer is yes for the start and the inside of every block it has outstanding. The answer is no for memory it never provided: blocks of other allocators or other instances, the heap, static memory and the stack. A composition can be asked exactly if all its parts can.',
     ['histories', 'inputs', 'configurations'], 'for every composition offering the query, every history, and every address of a live block or of foreign memory',
     'The tests query one live and one foreign pointer right after construction; boundary addresses, exhausted allocators, several instances and nested compositions are not sampled.',
     [A + f for f in ('linear_allocator.h', 'stack_allocator.h', 'null_allocator.h', 'freelist.h', 'cascading.h', 'fallback.h', 'segragator.h', 'overflow.h', 'reference.h', 'shared.h', 'global.h', 'threaded.h', 'type_allocator.h')],
     [('address range comparison', A + 'linear_allocator.h: owns'), ('walk over instances', A + 'cascading.h: owns'), ('disjunction', A + 'fallback.h, ' + A + 'segragator.h: owns'), ('delegation', A + 'freelist.h, ' + A + 'overflow.h, ' + A + 'shared.h: owns')],
     observe=['owns() for addresses in a shadow map of live blocks'])

prop('C06', 'Composite allocators route every request to exactly the right source',
     'A fallback composition asks its primary first and its secondary only when the primary refuses; a size-based composition sends requests up to and including its threshold to the primary and larger ones to the secondary, and nowhere else. What is allocated from one side is deallocated at that side, and a composition built from a list of N allocators (and thresholds) serves a request from the same one of them as trying the list in order (or by its thresholds) would.',
     ['inputs', 'histories', 'configurations'], 'for every request size around every threshold, every pattern of refusals by the sources, and lists of two to nine allocators built in either shape',
     'The tests check that results are non-null, with real allocators as sources; they do not observe which source served, nor thresholds at the exact boundary or long lists.',
     [A + f for f in ('fallback.h', 'segragator.h', 'fallback_fwd.h', 'segragator_fwd.h')] + [U + 'builder.h'],
     [('primary, then fallback', A + 'fallback.h: allocate/deallocate'), ('threshold comparison', A + 'segragator.h: allocate/deallocate'), ('recursive splitting of the list', A + 'fallback_fwd.h, ' + A + 'segragator_fwd.h, ' + U + 'builder.h')],
     observe=['ordered log of calls received by recording leaf allocators'])

prop('C07', 'Fixed-arena allocators give out their capacity exactly as documented',
     'An allocator over an arena of N bytes serves a non-empty request exactly if, rounded up to the alignment, it fits in what lies beyond the blocks handed out since the arena was last rewound; an arena is used from its start, in order. Returning the most recently placed block makes its space available again, returning others does not, and once everything is returned, or a new arena is assigned to it, the whole arena is available again.',
     ['histories', 'inputs', 'configurations'], 'for every arena size (multiples of the alignment or not), request size including zero, and order of returns',
     'The tests fill one arena size once and free in one or two orders; exact capacity at odd sizes and long mixed histories are not covered.',
     [A + f for f in ('linear_allocator.h', 'stack_allocator.h')] + [U + 'alignment.h'],
     [('capacity check', A + 'linear_allocator.h: allocate'), ('rewind on LIFO free and when empty', A + 'linear_allocator.h: deallocate'), ('the same over a client-provided arena', A + 'stack_allocator.h')],
     [('outstanding bytes', 'sum of rounded sizes outstanding', A + 'linear_allocator.h')],
     ['success or failure and position of every allocation, against a reference model'])

prop('C08', 'Free lists recycle every block and stay within their size range',
     'A free list serves exactly the sizes in its half-open range (greater than its minimum, up to its maximum) and asks its source only for blocks of the maximum size, only when it holds no returned block. Every returned block is reused before the source is asked again, and all blocks it holds go back to the source when it is destroyed.',
     ['histories', 'inputs', 'configurations'], 'for every range, every sequence of requests inside and outside of it, and every pattern of refusals by the source',
     'The tests check reuse of a single block; the number and sizes of source requests over a history are not observed.',
     [A + 'freelist.h'],
     [('range check', A + 'freelist.h: allocate/deallocate'), ('free chain', A + 'freelist.h: allocate/deallocate'), ('release', A + 'freelist.h: destructor, move assignment')],
     [('free chain', 'blocks given back', A + 'freelist.h')],
     ['calls received by a recording source'])

prop('C09', 'Cascading allocators create, use and drop instances exactly as needed',
     'A cascading allocator opens another instance of its underlying allocator only when the newest one refuses a request that a fresh instance can serve, and keeps every instance with outstanding blocks alive at its place. Each block goes back to the instance it came from, an instance other than the newest is dropped as soon as it has no outstanding block, and none remains after destruction.',
     ['histories', 'fault_sequences'], 'for every history of requests and returns in any order, refusals by instances, and heap exhaustion when an instance is opened',
     'The tests force one or two extra instances and free in order; which instance receives a block, and when instances disappear, is not observed.',
     [A + 'cascading.h'],
     [('new instance on refusal', A + 'cascading.h: allocate'), ('owner search and count', A + 'cascading.h: deallocate'), ('release', A + 'cascading.h: destructor')],
     [('instance list', 'newest first, with a count of outstanding blocks each', A + 'cascading.h')],
     ['creation/destruction of and calls received by recording instances', 'live heap blocks'])

prop('C10', 'Memory corruption next to a block is reported exactly',
     'When a block of the corruption-detecting allocator is returned, a report is made if and only if some byte within 64 bytes before its start or after its end was modified since it was handed out. The report names the block\'s address and size and, for each damaged side and no other, the distance to the farthest modified byte; writes inside the block never cause one.',
     ['inputs', 'histories'], 'for every block size, every set of modified guard bytes (either or both sides, any values), and any interleaving of other blocks and sources',
     'The tests damage one adjacent byte on each side of one block; far bytes, both sides, other values, sizes and interleavings are not sampled.',
     [A + 'overflow.h'],
     [('guard pattern', A + 'overflow.h: allocate'), ('scan of both guards', A + 'overflow.h: deallocate')],
     observe=['text written to the stream on deallocate'])

prop('C11', 'Leak and construction balance is reported exactly at destruction',
     'When the leak-detecting allocator is destroyed it reports the number of bytes allocated but not returned (or returned in excess) and the difference between constructions and destructions performed through it, if and only if they are not zero, with the exact amounts. Failed requests, throwing constructors and corrupted blocks do not distort the amounts, and what a moved-from allocator had outstanding is reported only by the one it was moved into.',
     ['histories', 'fault_sequences'], 'for every history of allocations, returns, constructions, destructions, failures and moves',
     'The tests leak one block or skip one destructor; sums over histories, refusals by the source, throwing constructors and moves are not covered.',
     [A + 'overflow.h'],
     [('byte and construction counters', A + 'overflow.h: allocate, deallocate, construct, destroy'), ('report', A + 'overflow.h: destructor'), ('move constructor', A + 'overflow.h')],
     [('counters', 'bytes outstanding, constructions outstanding', A + 'overflow.h')],
     ['text written to the stream on destruction'])

prop('C12', 'Reference-counted allocators live exactly as long as some handle',
     'A reference-counted allocator exists exactly while some handle to it does: copying, moving, assigning (also to itself), comparing and destroying handles in any order, from one thread or - with atomic counting - from many, never destroys it while a handle remains, and destroys it exactly once when the last one goes. Moved-from handles can be destroyed, assigned and compared.',
     ['histories', 'schedules'], 'for every history of handle operations (up to tens of thousands of handles) and every interleaving of them in several threads with atomic counting',
     'The tests copy a handle once or twice in one thread; count imbalances need particular operation sequences or interleavings to show.',
     [A + 'shared.h', U + 'aligned_malloc.h'],
     [('count increment/decrement', A + 'shared.h: increment/decrement'), ('atomic count', A + 'shared_fwd.h: atomic_shared'), ('self-assignment guard', A + 'shared.h: operator=')],
     [('use count', 'number of handles', A + 'shared.h')],
     ['creation and destruction of a recording allocator', 'sanitizer reports'])

prop('C13', 'Synchronised allocators are safe to use from many threads at once',
     'When several threads use one lock-wrapped allocator, directly or through atomically counted handles, its operations never overlap in the wrapped allocator, blocks are never handed to two clients, nothing is lost and there is no data race or deadlock. This holds for every operation that reaches the wrapped allocator: allocating, returning, constructing, destroying, querying and comparing.',
     ['schedules', 'histories'], 'for every number of threads, every interleaving of their operations and every wrapped allocator',
     'The tests have two threads allocate a few blocks, once, without a race detector; a missing lock would almost never show.',
     [A + 'threaded.h', A + 'shared.h'],
     [('mutex around operations', A + 'threaded.h'), ('two-lock comparison', A + 'threaded.h: operator=='), ('atomic count', A + 'shared.h')],
     observe=['entry and exit of operations in an instrumented wrapped allocator', 'ThreadSanitizer reports', 'ledger of blocks over all threads'])

prop('C14', 'Allocator equality is consistent and means interchangeability',
     'For all allocators, equality is reflexive and symmetric, and inequality is always its negation; handles to the same state, and allocators without state, compare equal, and allocators whose memory comes from separate state compare unequal. Two allocators that compare equal can return each other\'s memory.',
     ['inputs', 'histories', 'configurations'], 'for every composition, pair of instances and history, including copies, converted copies and moved-from handles',
     'The tests rarely compare allocators at all, and check equality but not its negation or its consequence.',
     ALLOC_FILES + [A + 'null_allocator.h'],
     [('comparison operators', 'every allocator: operator==/operator!='), ('identity of the wrapped allocator', A + 'reference.h, ' + A + 'shared.h, ' + A + 'stack_allocator.h')],
     observe=['results of == and !=', 'cross deallocation under recording sources'])

prop('C15', 'Typed allocators convert counts to bytes exactly',
     'A typed allocator asked for n objects requests exactly n times the object size from its underlying allocator and returns the memory with that same size; a count whose size is not representable is refused. Converting a typed allocator to another object type keeps it bound to the same underlying allocator, so either can return the other\'s memory, and its maximum is the underlying maximum in whole objects.',
     ['inputs', 'histories', 'configurations'], 'for every object size and type, count and conversion chain',
     'The tests use double with counts of one to a few; other sizes, overflow and conversions are only reached through whatever the standard containers do.',
     [A + 'type_allocator.h'],
     [('multiplication and overflow check', A + 'type_allocator.h: allocate/deallocate'), ('converting constructors, rebind', A + 'type_allocator.h'), ('division', A + 'type_allocator.h: max_size')],
     observe=['calls received by recording allocators under typed ones'])

prop('C16', 'Object construction and destruction reach the right place exactly once',
     'Constructing an object through any allocator or composition constructs it exactly once at the given address with the given arguments and value categories, through the allocator that owns the memory if that one defines its own construction, and destroying destroys it exactly once in the same way. Compositions offer construction and destruction whenever a part of them does, and exceptions from constructors reach the caller unchanged.',
     ['inputs', 'histories', 'configurations'], 'for every composition over sources with and without their own construction, every argument list and value category, and throwing constructors',
     'The tests construct plain values through one or two allocators; which source is asked, argument forwarding and exceptions are not observed.',
     [A + f for f in ('fallback.h', 'segragator.h', 'cascading.h', 'freelist.h', 'overflow.h', 'reference.h', 'shared.h', 'global.h', 'threaded.h', 'type_allocator.h')] + [U + 'meta.h'],
     [('construct/destroy forwarding', 'every composite: construct/destroy'), ('detection of what a source offers', U + 'meta.h: has_construct/has_destroy'), ('choice by ownership', A + 'fallback.h, ' + A + 'segragator.h, ' + A + 'cascading.h')],
     observe=['construct/destroy calls received by recording allocators', 'objects which record how they were made'])

prop('C17', 'Moving an allocator transfers everything it holds',
     'When an allocator or composition is moved (by construction or assignment) where its parts permit being moved, the target carries on exactly where the source stopped: it serves, owns and takes back what the source would have, and holds its reserves. What the target held before an assignment is returned to its source first, the moved-from allocator can be destroyed without touching what was moved, and nothing is lost or returned twice.',
     ['histories', 'configurations'], 'for every composition that can be moved with outstanding or retained memory, at every point of a history, repeatedly',
     'The tests move empty allocators once; moves with retained blocks, outstanding memory or a target that holds memory are not covered.',
     [A + f for f in ('freelist.h', 'cascading.h', 'fallback.h', 'segragator.h', 'overflow.h', 'shared.h', 'reference.h', 'stack_allocator.h', 'linear_allocator.h')],
     [('transfer and clearing of the source', A + 'freelist.h, ' + A + 'cascading.h, ' + A + 'shared.h, ' + A + 'overflow.h: move operations'), ('release of the target', A + 'freelist.h, ' + A + 'cascading.h: move assignment')],
     observe=['calls received by recording sources', 'outcome of requests compared with an unmoved twin'])

prop('C18', 'The reported maximum size is exactly what can be allocated',
     'Where an allocator reports a maximum size, a freshly made one serves a request of exactly that size (if it is not zero and memory suffices), and no request larger than it ever succeeds, in any state. A typed allocator reports whole objects. A composition reports a maximum exactly if all its parts do.',
     ['inputs', 'histories', 'configurations'], 'for every composition that reports a maximum, and every request size at and beyond it',
     'The tests compare the reported value with a constant for a few allocators and never allocate it.',
     [A + f for f in ('linear_allocator.h', 'stack_allocator.h', 'freelist.h', 'cascading.h', 'fallback.h', 'segragator.h', 'overflow.h', 'type_allocator.h', 'shared.h', 'reference.h', 'global.h', 'threaded.h')],
     [('max_size', 'every allocator that offers it')],
     observe=['max_size() and the outcome of requests at and beyond it'])

prop('C19', 'Standard containers behave identically on these allocators',
     'A standard container (vector, deque, list, map, set, unordered containers, string) using a typed allocator with shared state behaves, over every sequence of operations including copy, move, swap and splice, exactly as with the default allocator. All memory it takes is returned, with the sizes it was taken with, when the container goes.',
     ['histories', 'programs', 'configurations'], 'for every standard container, element type, operation sequence and conforming allocator composition',
     'The tests push and pop a few elements in vector and map-like containers on a handful of compositions.',
     ALLOC_FILES,
     [('allocator requirements: rebind, copy, equality', A + 'type_allocator.h'), ('shared state', A + 'shared.h, ' + A + 'reference.h, ' + A + 'global.h')],
     observe=['container contents compared with a std::allocator twin', 'ledger of the source'])

prop('C20', 'The trivial vector always equals its reference sequence',
     'Over every sequence of operations the trivial vector holds the same elements in the same order as a reference sequence, and returned iterators, sizes and element accesses agree with it; capacity never drops below size and only changes when it must grow or is reserved. This includes ranges, insertion at and removal from any position, and elements or arguments which refer into the vector itself.',
     ['histories', 'inputs'], 'for every element type, allocator and operation sequence, at sizes up to tens of thousands of elements',
     'The tests perform a few pushes and erases on small vectors of trivial structs.',
     [K + 'trivial_vector.h'],
     [('growth', K + 'trivial_vector.h: expand/set_size'), ('element moves', K + 'trivial_vector.h: emplace/erase'), ('copies', K + 'trivial_vector.h: constructors, assignment')],
     observe=['contents, size, capacity and returned iterators after every operation'])

prop('C21', 'The trivial array always equals its reference sequence',
     'Over every sequence of operations the trivial array holds the elements of a reference sequence: construction, copy, move and assignment give exactly the source\'s elements, resizing keeps the common prefix, and element access, iteration in both directions and size agree with it.',
     ['histories', 'inputs'], 'for every element type, allocator and operation sequence, including empty arrays',
     'The tests build a few small arrays and compare a copy.',
     [K + 'trivial_array.h'],
     [('resize', K + 'trivial_array.h: resize'), ('assign', K + 'trivial_array.h: assign'), ('copies and moves', K + 'trivial_array.h: constructors, assignment')],
     observe=['contents and size after every operation'])

prop('C22', 'The fixed buffer holds its elements like a plain array',
     'The fixed-size buffer behaves as an array of its element type: suitably aligned, with indices wrapped at its size, iterable in both directions, and equal to the value, list, range or buffer it was made from or assigned. Writing one element never affects another or anything outside the buffer.',
     ['inputs', 'histories', 'configurations'], 'for every element type and size, index and operation sequence',
     'The tests hardly exercise it, and only with byte-sized elements.',
     [K + 'trivial_buffer.h'],
     [('aligned storage', K + 'trivial_buffer.h'), ('wrapped index', K + 'trivial_buffer.h: operator[], at')],
     observe=['contents after every operation', 'address alignment', 'sanitizer reports'])

prop('C23', 'The binary heap is a priority queue over exactly its elements',
     'Over every sequence of insertions, removals, reservations and clearing, the heap holds exactly the inserted and not yet removed elements, its root is never ordered after any of them under its comparison, and removal returns such a root. Insertion returns the position at which the new element is, search finds an equal element if and only if there is one, and capacity is at least the size and at least what was reserved.',
     ['histories', 'inputs', 'configurations'], 'for every element type, comparison (including stateful ones and many ties), allocator and operation sequence, at sizes up to tens of thousands',
     'The tests insert a handful of distinct integers and pop them.',
     [K + 'binary_heap.h'],
     [('sifting', K + 'binary_heap.h: percolateUp/percolateDown'), ('growth', K + 'binary_heap.h: expand/set_size')],
     observe=['multiset of elements, root and returned iterators after every operation'])

prop('C24', 'The binary heap constructs and destroys every element exactly once',
     'Every element the heap creates in its storage is destroyed exactly once, elements are only ever read, assigned or destroyed while alive and only constructed where none is alive, and no resource an element holds is lost or released twice. This covers insertion, removal (also of the last element), growth, copying, moving, assignment, clearing and destruction.',
     ['histories', 'inputs'], 'for every operation sequence with element types that own resources or check their own lifetime',
     'The tests use trivial or simple elements for which a missing or double destruction leaves no mark.',
     [K + 'binary_heap.h'],
     [('construct/destroy pairs', K + 'binary_heap.h: insert, pop, set_size, clear, destructor, assignments')],
     observe=['registry of live elements by address', 'live resources'])

prop('C25', 'Containers and their allocator keep a consistent ledger',
     'Each container of the library returns every block to an allocator equal to the one that provided it, exactly once and with the count it requested, also after growing, shrinking, copying, moving, assigning and moving to another allocator. It holds at most one block when idle and none after destruction, and elements are constructed and destroyed through its allocator where it offers that.',
     ['histories', 'configurations'], 'for every container, operation sequence and pair of equal or unequal allocators',
     'The tests use allocators which ignore the size they are given back.',
     [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'binary_heap.h')],
     [('deallocate with the capacity', K + 'trivial_vector.h, ' + K + 'trivial_array.h, ' + K + 'binary_heap.h'), ('allocator-extended move', 'same files')],
     observe=['calls received by a recording allocator with identity'])

prop('C26', 'Copies are independent, and moves leave the source empty',
     'After copying a container (by construction, assignment or with another allocator) both hold equal elements and changing or destroying either never affects the other; after moving, the target holds exactly the source\'s elements and the source is empty and usable. Assigning a container to itself, by copy or move, changes nothing, and assignment replaces whatever the target held, whatever the sizes.',
     ['histories', 'inputs', 'configurations'], 'for every container, pair of states (empty, full, with spare capacity) and allocator pair, followed by any operations on either',
     'The tests copy and move one small container once, and do not use it further.',
     [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'binary_heap.h', 'trivial_buffer.h')],
     [('copy/move constructors and assignments', K + 'trivial_vector.h, ' + K + 'trivial_array.h, ' + K + 'binary_heap.h, ' + K + 'trivial_buffer.h'), ('self-assignment guard', 'same files')],
     observe=['contents of both containers after every later operation'])

prop('C27', 'Packed pointers keep pointer and integer independent and exact',
     'A packed pointer returns exactly the pointer and the integer (reduced to its bits) last stored, for every suitably aligned pointer and every integer type and value, and storing one never changes the other. It converts to false exactly if both are zero.',
     ['inputs', 'histories', 'configurations'], 'for every number of bits, alignment (from one to very large), pointer, integer value and type, and sequence of stores',
     'The tests store one or two values in two or three instantiations.',
     [K + 'packed_ptr.h', U + 'bits.h'],
     [('masks', K + 'packed_ptr.h: PTR_MASK, INT_MASK'), ('number of free bits', U + 'bits.h: log2')],
     observe=['get_ptr/get_int/bool after every store'])

prop('C28', 'Behaviour is the same in every supported build configuration',
     'The same program gets the same results from the library whichever supported compiler, language version, optimisation level and heap facility it is built with, and with debug assertions on or off. Debug assertions never fire for uses within the documented preconditions, and each header can be included on its own or forward declared.',
     ['configurations', 'programs', 'histories'], 'for every build configuration and every valid client history',
     'The tests run in four configurations but only compare each with fixed expectations on few inputs.',
     [U + 'assert.h', U + 'aligned_malloc.h', 'include/ktl/ktl.h'] + ALLOC_FILES + [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'binary_heap.h', 'packed_ptr.h')],
     [('assertion macro', U + 'assert.h'), ('heap selection', U + 'aligned_malloc.h'), ('forward declarations', 'include/ktl/*_fwd.h')],
     observe=['digests of all observable results per configuration', 'trapped assertions'])

prop('C29', 'No memory error or undefined behaviour within documented use',
     'No use of the library within its documented preconditions - any allocator, composition or container, any sizes and values, any sequence of operations, with or without memory exhaustion - reads or writes outside live memory, uses uninitialised control state, or otherwise executes undefined behaviour.',
     ['histories', 'inputs', 'programs', 'fault_sequences'], 'for every valid single-threaded use',
     'The tests are not built with sanitizers, and use few sizes and sequences.',
     ALLOC_FILES + [A + 'null_allocator.h', U + 'aligned_malloc.h', U + 'meta.h', U + 'bits.h'] + [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'trivial_buffer.h', 'binary_heap.h', 'packed_ptr.h')],
     [('pointer arithmetic and lifetimes', 'all headers')],
     observe=['AddressSanitizer and UndefinedBehaviorSanitizer reports (two compilers)', 'valgrind memcheck reports'])

prop('C30', 'Handles to shared state are interchangeable',
     'Copies of an allocator whose state is shared - references, globals, counted handles, handles to one stack arena, and typed versions or conversions of these - act as one allocator: memory allocated through one can be returned through any other, all see the same remaining capacity, and a handle that is reassigned acts on its new state only. Installing another allocator behind the global one affects all its handles at once.',
     ['histories', 'configurations'], 'for every kind of shared state and every history spread over any number of handles',
     'The tests allocate through one handle and free through one copy.',
     [A + f for f in ('reference.h', 'global.h', 'shared.h', 'stack_allocator.h', 'type_allocator.h', 'mallocator.h')],
     [('pointer to the state', A + 'reference.h, ' + A + 'shared.h, ' + A + 'stack_allocator.h'), ('static state', A + 'global.h'), ('copying conversions', A + 'type_allocator.h')],
     observe=['outcome and position of every request through any handle, compared with a twin driven through a single handle'])

prop('C31', 'Exceptions of underlying allocators pass through and leave no trace',
     'Where an underlying allocator throws - while it serves a request, constructs or destroys an object, or while an instance of it is made - the exception reaches the client of the composition unchanged. The composition is left as it was before (apart from one-time set-up on first use): nothing obtained for the request stays held, locks are released, outstanding blocks are intact and can be returned, and later requests have the outcome they would have had if the failing one had never been made.',
     ['histories', 'fault_sequences', 'configurations'], 'for every composition over allocators which may throw, every call of theirs that throws, and every history around it',
     'No allocator in the tests throws.',
     [A + f for f in ('cascading.h', 'fallback.h', 'segragator.h', 'freelist.h', 'overflow.h', 'shared.h', 'reference.h', 'threaded.h', 'type_allocator.h')] + [U + 'aligned_malloc.h'],
     [('conditional noexcept', 'all allocators'), ('an instance being opened', A + 'cascading.h: allocate'), ('memory for a state', U + 'aligned_malloc.h: aligned_new'), ('lock guards', A + 'threaded.h')],
     observe=['exceptions caught by the client', 'heap and sources after each exception', 'later answers compared with a twin that was not asked'])

prop('C32', 'Separate instances are independent of each other, also in different threads',
     'Allocators and containers which share no state do not influence each other: what a client of one sees does not depend on what is done with others before, in between or at the same time in other threads, without any synchronisation between them. Objects that nobody modifies - containers, packed pointers, buffers, and queries to allocators - can be looked at and copied by several threads at once.',
     ['histories', 'schedules', 'configurations'], 'for every kind of allocator and container (except the global one), any number of instances and threads, and every interleaving of their operations',
     'The tests use one instance at a time in one thread; hidden common state only shows with several.',
     ALLOC_FILES + [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'trivial_buffer.h', 'binary_heap.h', 'packed_ptr.h')],
     [('all state is in members', 'all headers')],
     observe=['results of every instance alone, interleaved with others, and in a thread of its own', 'ThreadSanitizer reports'])

prop('C33', 'Containers own their allocator: it is not copied or moved, nor has to be shared',
     'A vector, array or heap of the library keeps its allocator inside itself and, once it has one, neither copies nor moves it: all its memory comes from that one instance and goes back to it, with the sizes requested, before the container is gone. So an allocator whose state cannot be shared - an arena inside the object, a free list, a cascade, an overflow checker - serves a container through any history of operations on it, the contents stay right, and an allocator that checks for leaks or overruns finds none. Copying or moving a whole container is excepted.',
     ['histories', 'inputs', 'configurations'], 'for every container, element type, allocator with state of its own (made in place or passed in) and history of operations on the container',
     'The tests put shared or stateless allocators into containers, for which a copy is as good as the original.',
     [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'binary_heap.h')] + [A + 'type_allocator.h', 'README.md'],
     [('the allocator as a member', K + 'trivial_vector.h, ' + K + 'trivial_array.h, ' + K + 'binary_heap.h'), ('forwarding in place', A + 'type_allocator.h')],
     observe=['position and number of the allocator instances', 'every request and return with the instance it reached', 'contents after every operation', 'reports of overflow checkers'])

prop('C34', 'Containers allocate only to outgrow their capacity, and do so geometrically',
     'Vectors and heaps leave their storage where it is - no allocation, no return, addresses of elements unchanged - for every operation whose result fits into their capacity, also when they shrink; growing takes one request. Adding n elements one after another takes O(log n) requests and O(n) memory in all, the capacity staying within a constant multiple of the need. Arrays hold exactly their elements and allocate only when their size changes. Moving or swapping whole containers neither allocates nor touches elements. A heap inserts and pops with O(log n) comparisons and moves, copies nothing it was not told to copy, and finds in at most n comparisons.',
     ['histories', 'inputs'], 'for every container, number and order of elements, and history of operations (assignments aside)',
     'The tests look at values in containers of a few elements; a change which allocates, copies or compares too often passes them.',
     [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'binary_heap.h')],
     [('expand, set_size', K + 'trivial_vector.h, ' + K + 'binary_heap.h'), ('percolateUp, percolateDown', K + 'binary_heap.h'), ('move constructors and assignments', 'same files')],
     observe=['requests and returns per operation', 'data() and capacity() around each operation', 'comparisons, moves and copies counted by comparators and elements'])

prop('C35', 'Shorthand names and get_allocator() denote the compositions they stand for',
     'Each shorthand (type_linear_allocator, type_shared_freelist_allocator, type_reference_segragator_allocator, type_shared_threaded, binary_min_heap, ...) acts exactly as the composition its name spells: same outcomes, same calls at the underlying allocators, its copies sharing one state if the name says shared or reference, usable from several threads if it says atomic or threaded. get_allocator() reaches that very allocator which is wrapped, so that memory can be requested and returned through either.',
     ['histories', 'configurations', 'schedules'], 'for every shorthand, underlying allocators, object type and history over any of its handles and layers',
     'The tests use some of the names with one allocator each and never compare them with what they stand for.',
     [A + f + '_fwd.h' for f in ('cascading', 'fallback', 'freelist', 'linear_allocator', 'mallocator', 'overflow', 'segragator', 'shared', 'stack_allocator', 'threaded')] + [K + 'binary_heap_fwd.h'] + [A + f for f in ('type_allocator.h', 'shared.h', 'reference.h', 'threaded.h')],
     [('alias templates', 'include/ktl/*/*_fwd.h'), ('get_allocator', A + 'type_allocator.h, ' + A + 'shared.h, ' + A + 'reference.h, ' + A + 'threaded.h')],
     observe=['calls at recording sources of the name and of the composition', 'positions in arenas', 'answers of owns, max_size and comparisons', 'ThreadSanitizer reports'])

prop('C36', 'Constructor arguments reach the wrapped allocators, which start out fresh',
     'The arguments a composed allocator is constructed with reach the allocators it is made of through every layer: once each, as the very objects, lvalues or rvalues as they were passed, one argument or a tuple per part of fallback and segragator, in their order. Exactly what the parts can be constructed with is accepted. Whatever the arguments, and whatever the memory held before, the new allocator then acts exactly as one constructed without arguments.',
     ['histories', 'configurations'], 'for every composition, form of constructor arguments, prior contents of the memory and history afterwards',
     'The tests construct with arguments in a few places only, with one form of argument each, and do not look at where they arrive.',
     [A + f for f in ('fallback.h', 'segragator.h', 'freelist.h', 'overflow.h', 'shared.h', 'threaded.h', 'type_allocator.h', 'stack_allocator.h')],
     [('forwarding and tuple constructors', 'include/ktl/allocators/*.h')],
     observe=['identity, value category and number of the arguments at recording sources', 'calls at the sources of the allocator and of its twin', 'reports at the end'])

prop('C37', 'Exceptions of elements and allocators leave containers whole',
     'Where an operation of a container may throw (is not noexcept) and copying or moving an element, copying the comparator or the allocator throws, the exception reaches the client unchanged. A container which could not be made leaves nothing behind: every element it had made is destroyed and its memory returned. An array which could not be resized or assigned a range is as before; a heap which could not be assigned holds whole elements in its order, of what it held or was to hold. What was only read is unchanged, and all can be used, assigned and destroyed.',
     ['histories', 'faults'], 'for every container, operation and history, and every point at which a copy, a move or a request can throw',
     'The tests never throw from an element, a comparator or an allocator of a container.',
     [K + f for f in ('binary_heap.h', 'trivial_vector.h', 'trivial_array.h')],
     [('constructors and assignments of heaps', K + 'binary_heap.h'), ('resize, assign', K + 'trivial_array.h')],
     observe=['exceptions caught by the client', 'lifetimes of elements', 'blocks held at recording allocators', 'contents and order of the containers afterwards'])

prop('C38', 'What an operation costs does not depend on the history',
     'Allocators: however many blocks are outstanding or kept, a request, a return, asking who owns a block or for the maximum, and copying or comparing a handle take a bounded number of steps, and where nothing has to be filled or searched no more for large blocks than for small ones; a request takes no more from the sources than the documented block and prefix. Only a cascading allocator may take time in proportion to its instances. Containers: accessing, adding within the capacity, removing at the end, moving and exchanging take constant time, inserting into and popping a heap a logarithmic one, and copying, growing, searching, clearing and destroying one in proportion to the elements.',
     ['histories', 'configurations'], 'for every allocator, container, number of outstanding blocks or elements, and history',
     'The tests neither time nor count anything; they never hold more than some dozens of blocks or elements.',
     [A + f for f in ('linear_allocator.h', 'stack_allocator.h', 'freelist.h', 'cascading.h', 'fallback.h', 'segragator.h', 'overflow.h', 'threaded.h', 'shared.h', 'reference.h')] + [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'binary_heap.h')] + ['README.md'],
     [('allocate, deallocate, owns', 'include/ktl/allocators/*.h'), ('elements, growth, ordering', 'include/ktl/containers/*.h')],
     observe=['steps taken inside the library per operation', 'bytes copied or filled per operation', 'bytes taken from the sources per request'])

prop('C39', 'Whatever the documentation lets be composed can be used in full',
     'Allocators of which the parts meet the documented requirements (no types inside, the first part of a fallback and what cascades own, the first part of a segragator owns if it constructs) can be composed in any way and depth, whichever optional operations the sources have or lack. Each of the operations which the composition then offers, raw or typed, directly or through std::allocator_traits, can be called and does what it says; what a source constructed it destroys, all memory is returned, and nothing is reported about a correct client.',
     ['configurations', 'histories'], 'for every composition of parts that meet the documented requirements, every set of optional operations of its sources, and every history',
     'The tests instantiate some dozens of compositions, nearly all over mallocator, linear_allocator or stack_allocator, and call a few operations of each.',
     [A + f for f in ('cascading.h', 'fallback.h', 'freelist.h', 'overflow.h', 'segragator.h', 'shared.h', 'threaded.h', 'type_allocator.h')] + ['include/ktl/utility/meta.h'],
     [('conditions of the optional operations', 'include/ktl/allocators/*.h'), ('has_owns, has_construct, ...', 'include/ktl/utility/meta.h')],
     observe=['which operations compile and are offered', 'calls at recording sources', 'contents of blocks and objects', 'reports of leak detectors'])

prop('C40', 'Memory comes only from where the composition says',
     'Over memory which does not come from the heap the library does not touch the heap: serving, refusing, returning, constructing, destroying, owns(), max_size(), comparing, moving and dropping, and every operation of a container, go to the memory of the parts alone. The heap is asked only where the documentation says so: by mallocator, one block for each block it serves; for the common state of the copies of a shared allocator, one for all copies; by a cascading allocator, one for each instance it makes. All of that is given back.',
     ['histories', 'configurations'], 'for every composition over sources outside the heap, every container over such a composition, and every history of requests, refusals, returns, constructions, queries, copies and moves',
     'The tests never observe the heap, and nearly all of them run over mallocator, where an additional request goes unnoticed.',
     [A + f for f in ('linear_allocator.h', 'stack_allocator.h', 'mallocator.h', 'freelist.h', 'cascading.h', 'fallback.h', 'segragator.h', 'overflow.h', 'reference.h', 'shared.h', 'global.h', 'threaded.h', 'type_allocator.h')] + [K + f for f in ('binary_heap.h', 'trivial_vector.h', 'trivial_array.h', 'trivial_buffer.h', 'packed_ptr.h')],
     [('states and instances on the heap', A + 'shared.h, ' + A + 'cascading.h'), ('blocks on the heap', U + 'aligned_malloc.h'), ('growth', K + 'trivial_vector.h, ' + K + 'binary_heap.h')],
     observe=['requests and returns at the C heap and operator new per operation', 'instances made and dropped', 'which blocks lie on the heap'])

prop('C41', 'Debug assertions stop a client at the precondition it breaks',
     'Built with KTL_DEBUG_ASSERT, an operation outside its precondition raises the breakpoint, before it touches memory which is not its own: an index or position outside a vector or array, a reversed range, removing from or looking into something empty, more or fewer elements than a buffer has, a misaligned packed pointer, returning nullptr to an arena, free list, cascade or overflow detector (or anything to the null allocator), moving an arena in use or a free list away from the blocks it keeps, constructing outside a cascade, dropping a cascade whose blocks are still out in several instances. Operations within their preconditions never raise it, up to the very boundary.',
     ['inputs', 'histories', 'configurations'], 'for every container, element type, allocator, state, and every argument inside and outside the preconditions',
     'The tests never break a precondition: nothing would notice an assertion which is off by one, or gone.',
     ['include/ktl/utility/assert.h'] + [K + f for f in ('trivial_vector.h', 'trivial_array.h', 'trivial_buffer.h', 'binary_heap.h', 'packed_ptr.h')] + [A + f for f in ('linear_allocator.h', 'null_allocator.h', 'cascading.h', 'freelist.h', 'overflow.h')],
     [('KTL_ASSERT, KTL_BREAKPOINT', U + 'assert.h'), ('preconditions', K + '*.h, ' + A + '*.h')],
     observe=['breakpoint signals raised by an operation', 'accesses outside of live memory (AddressSanitizer)'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
