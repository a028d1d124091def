#!/usr/bin/env python3
"""Source of properties.jsonl and of the property part of MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = observe
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))
NT = 'No existing test exercises this code with more than one schedule; the quantifier over thread interleavings cannot be sampled by a unit test.'
B = 'src/lightspeed/'

# ---------------------------------------------------------------- concurrency
prop('C01', 'Fast lock: mutual exclusion, no lost wakeup, no access after release',
 'At most one thread at a time is between a successful lock (or try-lock, or asynchronous lock that was waited for) and the matching unlock; every thread that waits for the lock eventually gets it once the current holder unlocks; the recursive variant counts nesting per thread and save/restore of the recursion releases and re-acquires it completely. Unlocking never touches memory of a waiter that may already have left.',
 ['schedules'], 'all interleavings of 2-3 threads doing 1-2 lock/try-lock/asynchronous-lock/unlock rounds, preemption bounded', NT,
 [B+'mt/fastlock.h', B+'mt/threadMinimal.cpp'], [('FastLock queue hand-off', B+'mt/fastlock.h'), ('FastLockR recursion', B+'mt/fastlock.h')])
prop('C02', 'Mutex: exclusion, recursion, timeouts and asynchronous lock requests',
 'A mutex is held by at most one thread; it may be taken repeatedly by its holder and becomes free after as many unlocks; a timed or cancelled request that reports failure leaves no trace, and one that reports success holds the mutex; every waiter gets the mutex once it is released, whatever mixture of plain, timed, try and asynchronous requests is queued.',
 ['schedules'], 'all interleavings and timeout points of 2-3 threads over lock, timed lock, try-lock, recursive lock, asynchronous request and cancel, preemption bounded', NT,
 [B+'mt/mutex.h', B+'mt/mutex.cpp', B+'mt/syncPt.h', B+'mt/syncPt.cpp'], [('Mutex', B+'mt/mutex.cpp'), ('SyncPt slot queue', B+'mt/syncPt.cpp')])
prop('C03', 'Micro lock: mutual exclusion and progress',
 'Scopes guarded by the same micro lock never overlap in time, every thread that enters such a scope gets in after the scopes before it are left, and leaving a scope never touches memory of a thread that has already gone.',
 ['schedules'], 'all interleavings of 2-3 threads entering 1-2 guarded scopes, preemption bounded', NT,
 [B+'mt/microlock.h'], [('MicroLock queue', B+'mt/microlock.h')])
prop('C04', 'Reader/writer lock: exclusion levels and progress',
 'While a writer holds the lock nobody else holds it, readers may hold it together, and each request (plain, timed or asynchronous) is granted once the conflicting holders are gone; a timed or cancelled request that fails leaves the lock usable by the others. The lock is reusable after any amount of contention.',
 ['schedules'], 'all interleavings and timeout points of 2-3 threads taking read/write locks, preemption bounded', NT,
 [B+'mt/rwlock.h', B+'mt/fastrwlock.h'], [('RWLock', B+'mt/rwlock.h'), ('LevelLock', B+'mt/fastrwlock.h')])
prop('C05', 'Semaphore: units are conserved',
 'The number of successful acquisitions never exceeds the initial count plus the releases, and no released unit is lost: a waiter is admitted whenever a unit is available, also when other waiters time out or cancel at the same moment.',
 ['schedules'], 'all interleavings and timeout points of 2-3 threads over acquire, timed acquire, try, asynchronous acquire/cancel and release, preemption bounded', NT,
 [B+'mt/semaphore.h', B+'mt/syncPt.h', B+'mt/syncPt.cpp'], [('Semaphore', B+'mt/semaphore.h')])
prop('C06', 'Gate, notifier, synchronisation point: no lost, early or late notification',
 'A wait on an open gate returns at once; a wait on a closed gate returns successfully only after the gate was opened, releases every thread waiting at the time it opens even if it is closed again at once, and a timed wait reports failure only if the time has passed; no waiter sleeps forever on an open gate. A notification of a synchronisation point reaches exactly one registered slot (or all of them), a slot that was removed is never notified, a removed or reset slot can be registered again, and notifying never touches a slot or a thread that may already be gone.',
 ['schedules'], 'all interleavings and timeout points of 2-3 threads over open, close, wait, timed wait, preemption bounded', NT,
 [B+'mt/gate.h', B+'mt/notifier.h', B+'mt/notifier.cpp', B+'mt/syncPt.h', B+'mt/syncPt.cpp'], [('Gate', B+'mt/gate.h'), ('Notifier', B+'mt/notifier.cpp')])
prop('C07', 'Lock-free list keeps every element exactly once',
 'Under concurrent push, pop and drain of the lock-free list every pushed element is taken exactly once and none is lost or duplicated, and the list is never corrupted.',
 ['schedules'], 'all interleavings of 2-3 threads over push, pop, drain, preemption bounded', NT,
 [B+'mt/slist.h'], [('SList', B+'mt/slist.h')])
prop('C08', 'Thread start, run, finish and join',
 'A started thread runs its function exactly once, join returns only after the function has completed and never hangs, a thread object can be started again after join, an exception leaving the function is contained, a finish request is seen by the thread and wakes its sleep, and starting a running thread is refused.',
 ['schedules'], 'all interleavings of start, run, finish, wake-up, join and destruction of 1-2 threads, preemption bounded', NT,
 [B+'mt/thread.h', B+'mt/linux/thread.cpp', B+'mt/threadHook.cpp', B+'mt/linux/threadSleeper.cpp'], [('Thread', B+'mt/linux/thread.cpp')])
prop('C09', 'Weak references never revive or touch a dead object',
 'Locking a weak reference yields either the live object, which then stays alive while it is held, or nothing; after the owner has withdrawn the object no lock succeeds, and the owner proceeds to destroy it only after all holders have released it.',
 ['schedules'], 'all interleavings of 2-3 threads over copy, lock, use, release and owner destruction, preemption bounded', 'The one test checks three single-threaded outcomes.',
 [B+'base/memory/weakref.h'], [('weak reference target', B+'base/memory/weakref.h')])
prop('C10', 'Reference counted and shared pointers destroy their object exactly once',
 'An object managed by reference-counted or shared pointers that are copied, assigned and dropped by several threads is destroyed exactly once, after the last pointer is gone, and never while a pointer to it exists; shared strings copied between threads keep their contents.',
 ['schedules'], 'all interleavings of 2-3 threads copying, assigning and dropping pointers or strings, preemption bounded', NT,
 [B+'base/memory/refCntPtr.h', B+'base/memory/refcntifc.h', B+'base/memory/sharedPtr.h', B+'base/containers/stringBase.h'], [('reference counter', B+'base/memory/refcntifc.h')])
prop('C11', 'Futures and promises: resolved once, every observer notified exactly once',
 'A future is resolved at most once, with the first value or exception given; every observer registered before, during or after the resolution is called exactly once with that outcome unless it was removed or got a cancel exception first, every waiting thread is released, and when the last copy of an unresolved promise is dropped its future is resolved with CanceledException instead of leaving anyone waiting. Chained, transformed and combined futures deliver the result of the chain or its exception once. The resolving thread touches neither a waiting thread nor an observer after it has notified it.',
 ['schedules'], 'all interleavings of 2-3 threads over resolve, reject, drop, wait, observe, cancel and chaining, preemption bounded', 'The promise tests run a handful of fixed schedules.',
 [B+'base/actions/promise.h', B+'base/actions/promise.tcc', B+'base/actions/promise.cpp'], [('Future/Promise', B+'base/actions/promise.tcc')])
prop('C12', 'Dispatcher: each dispatched action runs once, in order, or is rejected',
 'Every action handed to a dispatcher is executed exactly once by the dispatching thread, in the order it was handed over by one thread, and its future is resolved with the result; actions pending when the dispatcher is stopped or destroyed are rejected, never silently dropped or executed later; once join or the destructor of a stopped dispatcher returns nothing uses the dispatcher any more.',
 ['schedules'], 'all interleavings of 1-2 producers, the dispatching thread and shutdown, preemption bounded', NT,
 [B+'mt/dispatcher.h', B+'mt/dispatcher.cpp', B+'mt/msgthread.cpp', B+'base/actions/idispatcher.tcc'], [('Dispatcher queue', B+'mt/dispatcher.cpp')])
prop('C13', 'Message queue: no message lost, duplicated or reordered',
 'Each message posted to a message queue is delivered exactly once or rejected exactly once, messages of one sender keep their order, priority messages overtake pending normal ones, and a synchronous request (sync, flush, cancel, finish) returns only after the messages it concerns were processed or rejected; a message thread started by its first message loses none. Asynchronous procedure calls are executed once, in order, by their thread, or rejected.',
 ['schedules'], 'all interleavings of 1-2 posting threads and the pumping thread, preemption bounded', NT,
 [B+'base/actions/msgQueue.h', B+'base/actions/msgQueue.cpp', B+'mt/msgthread.cpp', B+'mt/apc.h', B+'mt/apcthread.cpp'], [('MsgQueue', B+'base/actions/msgQueue.cpp')])
prop('C14', 'Executors run every accepted task exactly once and stop cleanly',
 'A queue, parallel or unlimited-parallel executor runs each accepted task exactly once on one of its threads, a limit on the number of workers is respected, join waits until running tasks are done, an executor that was stopped can be used again, a refused task (timeout, no thread) is never run later, and stopping leaves no thread behind that still touches the executor or the task.',
 ['schedules'], 'all interleavings of a submitting thread, 1-2 workers and shutdown, preemption bounded', NT,
 [B+'base/actions/queueExecutor.cpp', B+'base/actions/parallelExecutor.cpp', B+'base/actions/InfParallelExecutor.cpp'], [('QueueExecutor', B+'base/actions/queueExecutor.cpp'), ('ParallelExecutor', B+'base/actions/parallelExecutor.cpp')])
prop('C15', 'Singletons are constructed once',
 'However many threads ask for a singleton at the same time, one instance is constructed, every caller gets that instance fully constructed, and several singletons may be initialised concurrently. A constructor that throws leaves the singleton to the next caller. At exit every instance is destroyed exactly once, in the reverse order of creation; one used again later is created anew and destroyed too.',
 ['schedules'], 'all interleavings of 2-3 threads with first access to one or two singletons, preemption bounded', NT,
 [B+'base/memory/singleton.h'], [('Singleton', B+'base/memory/singleton.h')])
prop('C16', 'Resource pool: a resource has one user and the limit holds',
 'A pooled resource is never given to two users at a time, the number of existing resources never exceeds the limit of the pool, a waiting user gets a resource (or the permission to create one) as soon as one is returned, the creation of one fails or the limit is raised, and a request fails only after its timeout or when its own creation throws. Lowering the limit destroys no resource in use; resources above the new limit are destroyed when they are returned.',
 ['schedules'], 'all interleavings and timeout points of 2-3 threads acquiring and returning resources, preemption bounded', NT,
 [B+'base/containers/resourcePool.h', B+'base/containers/resourcePool.cpp'], [('AbstractResourcePool', B+'base/containers/resourcePool.cpp')])
prop('C17', 'Pool allocator: blocks given out never overlap, under concurrent use',
 'Memory blocks obtained from the pool allocator by any number of threads are never given out twice while in use, are large enough and keep their contents until freed, an allocation never fails for another reason than lack of memory, no memory is read after it was returned to the system, and the last block returned after the allocator was released takes the cached blocks with it.',
 ['schedules', 'histories'], 'all interleavings of 2-3 threads allocating and freeing blocks of two size classes, preemption bounded', NT,
 [B+'base/memory/poolalloc.h'], [('PoolAlloc free lists', B+'base/memory/poolalloc.h')])
prop('C18', 'Thread variables are private to each thread and destroyed once',
 'A thread variable holds for each thread the value that thread stored, never that of another thread or of another variable, its value is destroyed exactly once when the thread ends or the value is replaced, two live variables never share a slot, and a variable created after others were unset and released starts empty. A thread started before a variable was created may be refused the variable, but nothing is leaked.',
 ['schedules', 'histories'], 'all interleavings of 2 threads creating, setting, reading and releasing thread variables, preemption bounded', NT,
 [B+'base/sync/tls.h', B+'base/sync/tls.cpp', B+'base/sync/threadVar.h'], [('TLS table', B+'base/sync/tls.h')])
prop('C19', 'Scheduler runs each event once, not before its time',
 'An action scheduled after a delay runs exactly once, not before its time and in the order of the times, whatever other events are scheduled meanwhile; scheduling an earlier event wakes the scheduler in time, and at shutdown every pending event is canceled or rejected exactly once and never run after it. (Ordering is claimed among timed events, not between timed events and plain messages of the same queue.)',
 ['schedules'], 'all interleavings and time advances of a scheduling thread and the scheduler, preemption bounded', NT,
 [B+'mt/scheduler.h', B+'mt/scheduler.cpp'], [('Scheduler', B+'mt/scheduler.cpp')])
# ---------------------------------------------------------------- sequential
prop('C20', 'Cluster allocator: live blocks are disjoint and memory is reused safely',
 'For every sequence of allocations and releases of any sizes (zero included), whether a block is released through the allocator or through the owner it was reported with, and whether or not the underlying allocator sometimes refuses memory, the blocks in use are disjoint, aligned, inside the memory obtained and at least as large as requested, and keep their contents; released blocks are reused, clear() reports a leak exactly when some block was not released, and everything is returned to the underlying allocator with the size it was obtained with.',
 ['histories'], 'all operation sequences over four block sizes up to the stated depth', 'No test uses the allocator directly.',
 [B+'base/memory/clusterAlloc.h', B+'base/memory/clusterAlloc.cpp'], [('AllocCluster', B+'base/memory/clusterAlloc.cpp')])
prop('C21', 'Ordered map, multimap and set behave as their mathematical models',
 'After every sequence of insertions, replacements, erasures, look-ups and copies a map, multimap or set holds exactly the elements of the reference model, iterates them in order in both directions from any position, reports their number, and stays balanced.',
 ['histories'], 'all operation sequences over 4-6 keys up to the stated depth', 'Tests touch a few fixed insertions through other components only.',
 [B+'base/containers/avltreenode.h', B+'base/containers/avltreenode.tcc', B+'base/containers/map.h', B+'base/containers/map.tcc', B+'base/containers/set.h', B+'base/containers/set.tcc'], [('AVL tree', B+'base/containers/avltreenode.tcc')])
prop('C22', 'Sequence containers: arrays, queues, stacks, deques, lists, optionals',
 'After every sequence of additions, insertions, removals, resizes, assignments and copies an auto-growing array, deque, queue, stack, linked list or optional item holds exactly the elements of the reference sequence in order, constructs and destroys every element exactly once, and never touches memory outside itself.',
 ['histories'], 'all operation sequences over a small alphabet up to the stated depth', 'No test targets the containers.',
 [B+'base/containers/autoArray.tcc', B+'base/containers/deque.tcc', B+'base/containers/linkedList.h', B+'base/containers/queue.tcc', B+'base/containers/stack.tcc'], [('AutoArray', B+'base/containers/autoArray.tcc'), ('Deque', B+'base/containers/deque.tcc'), ('LinkedList', B+'base/containers/linkedList.h')])
prop('C23', 'Sorting and priority queues',
 'Heap sort yields an ordered permutation of the input, a heap or priority queue always has its best element (by its comparison) on top whatever pushes, pops and removals from the middle preceded, a sorting filter outputs its best element next, named enumerations are found by every name and value in whatever order they are declared, and copies of these are complete and independent.',
 ['inputs', 'histories'], 'all arrays over a small alphabet up to the stated length; all operation sequences up to the stated depth', 'No test targets these algorithms.',
 [B+'base/containers/sort.h', B+'base/containers/sort.tcc', B+'base/containers/priorityQueue.h', B+'base/iter/sortFilter.tcc', B+'base/namedEnum.h'], [('HeapSort', B+'base/containers/sort.tcc')])
prop('C24', 'B-tree keeps its elements through any insertions and removals',
 'After any sequence of insertions and removals (also removal of an item given by reference into the tree), clears, copies and assignments (also to itself), the B-tree contains exactly the elements it should: results of Add, Remove and Find, Size, RankOf, ItemWithRank, Smallest and Largest agree with a sorted set; iteration forward, backward, from an item and turning at any place visits exactly the elements in order; every element is constructed and destroyed exactly once.',
 ['histories'], 'all operation sequences over up to 8 keys', 'No stable test covers it.',
 [B+'base/containers/btree.h'], [('BTree', B+'base/containers/btree.h')])
prop('C25', 'Strings are immutable values; slices, concatenation and search are exact',
 'A string keeps its characters however it was built, copied, sliced, concatenated, appended, written through another variable or passed on, is always terminated, and its buffers are freed exactly once. Slicing, cropping, searching (forward, backward, for an item, a sequence or one of a set, from a position), trimming, comparing (also ignoring case and with literals), splitting, seeking iterators and reversing, repeating and summing arrays give the result of their definition for every input, including empty, boundary and huge ranges. References to pooled strings keep their characters while the pool grows. Wide strings convert to UTF-8 and to code pages and back without change.',
 ['inputs', 'histories'], 'all strings over a 2-3 letter alphabet up to the stated length with all positions; all short programs of string operations', 'No test targets strings.',
 [B+'base/containers/string.h', B+'base/containers/string.tcc', B+'base/containers/stringBase.h', B+'base/containers/constStr.h', B+'base/containers/arrayref.h', B+'base/containers/stringpool.tcc'], [('StringCore', B+'base/containers/stringBase.h')])
prop('C26', 'UTF-8 conversion round-trips every code point in canonical form',
 'Converting any text of code points up to 31 bits to UTF-8 yields the canonical shortest encoding, converting it back yields the text, through the converters, the read and write iterators, block transfers, the iterator filters and the String class alike and in whatever pieces the data come; a byte sequence with a stray or missing continuation byte or with byte 0xFF is reported by an exception (an incomplete character at the very end is reported or dropped), with skipping of invalid characters enabled decoding never fails on it and the text after it is decoded; nothing is read past the input.',
 ['inputs'], 'all code points, all pairs of boundary code points, all byte strings up to length 3-4 over the byte classes', 'The test converts one sample text.',
 [B+'base/streams/utf.h', B+'base/streams/utf.cpp', B+'base/streams/utf.tcc'], [('UTF-8 converters', B+'base/streams/utf.cpp')])
prop('C27', 'Base16, base32, base64 and base85 encode and decode losslessly',
 'For every byte string the base16, base32, base64 and base85 encoders yield the standard encoding (with or without padding as configured) and the decoders return the same bytes (lower case included where the alphabet has one case), in whatever way the converter or iterator is fed and read, also when one converter is used for several messages one after another; decoders fed with any other characters end and never give more bytes than characters.',
 ['inputs'], 'all byte strings up to length 2, all strings up to length 9-10 over a boundary alphabet, all lengths up to 300-700, in 8 ways of feeding; all sequences of messages', 'Tests use one short text per codec.',
 [B+'utils/base16.cpp', B+'utils/base32.cpp', B+'utils/base64.cpp', B+'utils/base64.tcc', B+'utils/base85.cpp'], [('encoders/decoders', B+'utils/')])
prop('C28', 'URL encoding and query strings',
 'URL-decoding the URL-encoding of any text gives the text and the encoding contains only characters allowed in a URL; parsing a query string yields its name/value pairs decoded, in order, one for each non-empty part, and the path before it.',
 ['inputs'], 'all texts over a boundary alphabet up to the stated length', 'The test checks two fixed texts.',
 [B+'utils/urlencode.h', B+'utils/urlencode.cpp', B+'utils/queryParser.h', B+'utils/queryParser.cpp'], [('UrlEncodeConvert/UrlDecodeConvert', B+'utils/urlencode.cpp'), ('QueryParser', B+'utils/queryParser.cpp')])
prop('C29', 'LZW compression is lossless for any data and any chunking',
 'Decompressing what the compressor produced returns the original bytes, for every input, chunking of the data, flush position and dictionary size, and consecutive blocks on one stream are decompressed independently.',
 ['inputs', 'histories'], 'all byte strings over 2-3 symbols up to the stated length, long periodic strings that fill and reset the dictionary, all splits', 'Tests compress a few fixed texts.',
 [B+'utils/lzw.h', B+'utils/lzw.cpp', B+'utils/lzw.tcc'], [('LZW dictionary', B+'utils/lzw.cpp')])
prop('C30', 'JSON: serialising and parsing are inverse, malformed input is rejected',
 'Parsing the text serialised from any JSON value gives an equal value (numbers with a fraction up to 1e-15 of their size, a non-finite number becomes null), every valid JSON text is accepted with its meaning and malformed text is rejected with an exception, never with a crash, a hang or a wrong value. Objects and arrays behave as a map and a list under every sequence of additions, replacements, removals and reads; two values are equal exactly when they have the same contents; copies are independent, nothing is leaked. The stream parser reports the same values as the parser, and a path finds the value it names, survives copying and compares consistently. Text after the value is not examined, exponents beyond about 250 and lenient forms such as 01, +5 or 1. may be refused or accepted, and the nesting depth is limited by the stack.',
 ['inputs'], 'all JSON values up to the stated size over boundary leaves; all token strings up to the stated length', 'Tests cover a few fixed documents.',
 [B+'utils/json/jsonparser.tcc', B+'utils/json/jsonserializer.tcc', B+'utils/json/jsonimpl.h', B+'utils/json/json.cpp'], [('JSON parser', B+'utils/json/jsonparser.tcc'), ('JSON serializer', B+'utils/json/jsonserializer.tcc')])
prop('C31', 'Binary JSON round-trips, corrupted input is refused',
 'Reading back a value written in the binary JSON form yields an equal value, for every value and every table of names, one value after another, and converting it to text yields the text of that value. Any bytes that are not a value of the format, truncated data included, end in an exception, never in a crash, a hang, a leak or an allocation of a length the data merely claims. Numbers of the variable-length form decode to the number encoded. (Byte sequences with a broken character as a code, and removing more items than the stack has, may do either; the nesting is limited by the stack.)',
 ['inputs'], 'all values up to the stated size over boundary leaves; every truncation; all code sequences up to the stated length', 'No test covers it.',
 [B+'utils/json/binjson.cpp', B+'base/streams/compressNumb.cpp'], [('binary JSON', B+'utils/json/binjson.cpp'), ('variable-length numbers', B+'base/streams/compressNumb.cpp')])
prop('C32', 'Numbers convert to text and back without change',
 'Formatting an integer in any base from 2 to 62 and parsing it back gives the same integer for every value of the type, the decimal text is the exact one, parsing rejects text that is not a number of the range; text formatting places each argument in its placeholder, and a text pattern accepts exactly the texts it describes and returns each named field.',
 ['inputs'], 'all 16-bit integers, all boundary 64-bit integers, all short strings over digits, signs and separators', 'Tests convert a few numbers.',
 [B+'base/text/toString.tcc', B+'base/text/textParser.tcc', B+'base/text/textFormat.tcc', B+'base/text/strtodouble.cpp'], [('toString', B+'base/text/toString.tcc')])
prop('C33', 'Buffered streams preserve the byte sequence',
 'Whatever mixture of reads, peeks, put-backs, writes and flushes is applied to a buffered stream and however short the reads and writes of the underlying stream are, the reader gets exactly the bytes of the source in order, bytes just read can always be put back, the target gets exactly the bytes written, and after a successful flush all of them.',
 ['histories', 'fault_sequences'], 'all operation sequences up to the stated depth with every placement of short reads/writes within the deviation budget', 'No test uses short transfers.',
 [B+'base/streams/fileiobuff.h', B+'base/streams/fileiobuff.tcc', B+'base/streams/fileiobuff.cpp'], [('IOBuffer', B+'base/streams/fileiobuff.cpp')])
prop('C34', 'HTTP client: response framing is decoded exactly',
 'For every request and response written within the described calls the bytes on the wire are exactly one HTTP/1.1 message (request line and Host from the url, each header once, body either counted or chunked, a body written without announcing is chunked); reading a response gives the status, the headers by case-insensitive names and exactly the body bytes of that message however the bytes are split, keeps the bytes of the next response, refuses broken or truncated headers, chunk sizes and lengths, reports an incomplete body, and a response 204 or 304 has no body.',
 ['inputs', 'fault_sequences'], 'all response shapes over a small grammar with every packet split and every truncation point', 'Three fixed responses are tested, each in one piece.',
 [B+'base/streams/httpc.h', B+'base/streams/httpc.cpp', B+'base/streams/httpc.tcc'], [('HttpResponse', B+'base/streams/httpc.cpp'), ('HttpRequest', B+'base/streams/httpc.cpp')])
prop('C35', 'Memory files behave like files',
 'A memory file behaves as a byte array with a position for every sequence of reading, peeking, writing, positional access, resizing, clearing, append mode and closing: reads return exactly the stored bytes and never more, extended parts are zero, writes of impossible extent fail and change nothing, a closed output cannot be written; stream adapters over a random access file advance exactly by the bytes transferred.',
 ['histories'], 'all operation sequences up to the stated depth', 'No test uses memory files.',
 [B+'base/streams/memfile.h', B+'base/streams/memfile.cpp', B+'base/streams/memfile.tcc'], [('MemFile', B+'base/streams/memfile.tcc')])
prop('C36', 'File operations are all or nothing',
 'A file opened for replace-on-close keeps its old contents until it is closed and then has exactly the new contents; if any system call fails or the process dies at any point, either the complete old or the complete new file is there and the new one replaces it only after its data are stored. Copying, moving, linking, creating and removing files and folders do exactly what was requested and touch nothing else (links are not followed when removing), or report an error and then leave the source and a target which may not be overwritten as they were. Reading a folder gives each entry once with its right name, type, size and path. Calls of an open file agree with a byte array under interruptions, short transfers and failures, a temporary file never takes an existing name, and nothing stays open.',
 ['crash_points', 'fault_sequences', 'histories'], 'every system call of short operation histories as a crash point and every one (thorough: every two) of them failing, interrupted or short, over an in-memory file system', 'No test injects failures or crashes.',
 [B+'base/linux/fileio.cpp', B+'base/streams/abstractFileIOService.cpp', B+'base/streams/filehlp.cpp'], [('commit on close', B+'base/linux/fileio.cpp')])
prop('C37', 'Event log: replay after any crash returns a prefix of what was written',
 'Reading an event log back delivers every written event once, in the order of writing, with its type, time and data (data may be padded to a multiple of 8 bytes), and the offset given for a record lets readRecord read that record. Replay of any part of the log gives exactly that part; cells are replayed once each with their last value; rotated logs and reopened logs continue where they ended. A log cut at any byte yields exactly the events written completely before the cut, and either opens or reports the position where it can be cut and continued; a cell file cut anywhere gives an error or values that were once written. A listener synchronised at any moment - also while other threads write - gets each event exactly once in order, a removed listener gets none, and concurrent transactions are not mixed. A replicated log ends with the events, times and cells of its master whatever connection cuts, refusals or full disks happen on the way. Records which the log refuses (type over 65535, data over 512 KiB, time older than the previous event) change nothing.',
 ['histories', 'crash_points'], 'all event histories up to the stated length with every cut', 'No test covers the event log.',
 [B+'utils/eventdb.h', B+'utils/eventdb.cpp'], [('EventLog', B+'utils/eventdb.cpp')])
prop('C38', 'Dates and timestamps convert consistently',
 'A calendar date, its day number, the unix time and the time stamp of the same moment always agree, for every day of the supported range including the days before 1970 and before the year 0: converting to any other form and back gives the same day and the same time of day, dates with a month or day out of range and dates moved by years, months and days are normalised by the calendar, week days repeat by seven and days of the year are right. A time of day carries to the next day exactly when a sum reaches a day (or a difference is negative), adding and subtracting date-times and time stamps agrees with the count of milliseconds and with comparison, and intervals have the length asked for in any unit. The texts written as database, ISO 8601 and RFC 1123 time are those of the calendar (rounded to the nearest second), reading them returns the same moment, every ISO 8601 form documented (with or without separators, day of the year, week, two digit years 1951-2050, fractions, zones) reads as the moment it denotes, and a text which has no such form is refused.',
 ['inputs'], 'every day of 1600-2400, boundary times of day', 'No test covers dates.',
 [B+'base/timestamp.cpp', B+'base/timestamp.h', B+'base/datetime.h', B+'base/datetime.cpp'], [('TimeStamp', B+'base/timestamp.cpp')])
prop('C39', 'Digests do not depend on chunking and match the standard algorithms',
 'MD5, SHA-1 and CRC-32 of any data equal those of the standard definition, however the data is split into pieces, written one by one or in blocks, forwarded to a next iterator or read from a file, for any length including data whose length in bits does not fit into 32 bits; the hexadecimal form denotes the same digest and an object used again starts anew.',
 ['inputs'], 'all lengths 0-200 of patterned data with every split in two; all byte strings up to length 2', 'No test covers the digests.',
 [B+'utils/impl/md5.cpp', B+'utils/impl/sha1.cpp', B+'utils/crc32.cpp', B+'utils/md5iter.h'], [('md5', B+'utils/impl/md5.cpp')])
prop('C40', 'Path arithmetic and configuration files',
 'A file path built from parts (base directory, relative path, nested folders, parent steps, empty parts; given as narrow, wide or String text) denotes the lexically right path: no doubled separators, a folder ends with exactly one separator, parent removes the last part; and for every absolute path the parts (whole path, file name, title, extension, folder) agree with that path. An ini configuration gives for every section and field exactly the value written there: lookup ignores letter case, repeated fields are reachable by index, enumeration by section and prefix lists exactly the matching fields, typed reads agree with the text, quoted values and their escapes come back as written, the last line needs no new line, includes (by function or by file relative to the includer) are read in place, and a broken line either is reported or, when errors are ignored, costs only itself.',
 ['inputs'], 'all paths over a small component alphabet up to the stated length; all short configuration texts', 'No test covers them.',
 [B+'utils/FilePath.h', B+'utils/FilePath.tcc', B+'utils/configParser.tcc'], [('FilePath', B+'utils/FilePath.tcc')])

prop('C41', 'Fibers transfer control exactly as requested and unwind when stopped',
 'Starting, waking, sleeping and stopping fibers transfers control exactly as documented: sleep returns control to the caller or the master, wakeUp resumes the fiber and its sleep returns the given reason, a passive fiber is not resumed, and a fiber which ends returns control to its master. Every fiber keeps its own stack and variables over any sequence of switches. A fiber which is stopped or destroyed unwinds wherever it waits, so that all objects on its stack are destroyed exactly once; an exception which leaves a fiber is reported once by checkState in the master; no stack leaks; the master fiber may be destroyed and created again.',
 ['inputs', 'histories'], 'all sequences of start/wake/sleep/stop/destroy over 1 to 3 fibers up to the stated depth', 'The tests do not use fibers.',
 [B+'mt/fiber.h', B+'mt/linux/fiber.cpp'], [('Fiber', B+'mt/linux/fiber.cpp')])
prop('C42', 'Network streams, connecting, accepting and datagrams honour data and timeouts',
 'A network stream delivers exactly the bytes which arrived, in order, and sends exactly the bytes whose write was reported, over every order of arrivals, partial writes, interruptions by signals, resets and timeouts; the end is reported only after the last byte. An operation which can not finish ends after the timeout (never earlier, never blocks longer), writing to a reset connection throws and never kills the program. Connecting tries all addresses (up to four at once) and returns only a connected stream, even if other addresses fail or connecting was waited for before; accepting returns connections in the order of their arrival, skips aborted ones, reports the timeout as NetworkTimeoutException. A datagram is received whole with its sender, and sent as written to its target exactly once. Waiting for several resources returns exactly their events, timeouts and wake up reasons. Every socket is closed exactly once, also after failures. Addresses have a consistent order and equality.',
 ['inputs', 'histories', 'fault_sequences'], 'all sequences of calls, events of the environment, interruptions and timeouts up to the stated depth, over a simulated network and clock', 'The tests do not use the network.',
 [B+'base/linux/netStream.cpp', B+'base/linux/netStreamSource.cpp', B+'base/linux/netDgramSource.cpp', B+'base/linux/netAddress.cpp', B+'base/linux/linuxFdSelect.cpp', B+'base/linux/linuxNetWaitingObj.cpp', B+'base/streams/netio_ifc.h', B+'base/streams/netio.h'],
 [('LinuxNetStream', B+'base/linux/netStream.cpp'), ('LinuxNetAccept', B+'base/linux/netStreamSource.cpp'), ('LinuxNetConnect', B+'base/linux/netStreamSource.cpp'), ('LinuxNetDgamSource', B+'base/linux/netDgramSource.cpp')])

prop('C43', 'Waiting for descriptors: each event and timeout goes once to who asked for it',
 'A registered descriptor produces exactly one event (monitoring is one-shot): its readiness, a hang up or an error, or its timeout; the event carries the data of the last registration and only what has happened. A timeout of a descriptor is reported neither before its time nor after another, later one; no timeout and no wake up is lost, whatever was registered, replaced, removed or closed meanwhile; a wait ends at its own timeout. A registration which fails changes nothing, a removed or closed descriptor reports nothing. The network event listener notifies every observer exactly once per request, with the events the observer asked for (0 only at its timeout), confirms every request exactly once, never notifies an observer after its removal was confirmed, and ends with requests waiting or registered without losing a confirmation, leaking or touching freed memory - under every interleaving of the asking threads, the listener and the events.',
 ['histories', 'schedules', 'fault_sequences'], 'all histories of registrations, removals, readiness changes, closing, time and waits up to the stated depth over up to four descriptors, for epoll and poll; all schedules of the listener up to the stated number of deviations', 'No test waits for network events; wrong results need a particular order of timeouts, or of the listener thread and its users.',
 [B+'base/linux/epollSelect.cpp', B+'base/linux/epollSelect.h', B+'base/linux/pollSelect.cpp', B+'base/linux/pollSelect.h', B+'base/linux/networkEventListener.cpp', B+'base/linux/networkEventListener.h'],
 [('EPollSelect', B+'base/linux/epollSelect.cpp'), ('PollSelect', B+'base/linux/pollSelect.cpp'), ('LinuxNetworkEventListener', B+'base/linux/networkEventListener.cpp')])

prop('C44', 'Started processes get exactly what they were given; their end is noticed',
 'A started process receives exactly the arguments given (empty ones, spaces, quotes, backslashes, any characters), in the order given, the environment given (or that of this process) and the working directory; getCmdLine() and cmdLine() are inverse of each other. Its standard input, outputs and extra pipes are exactly the redirections requested and otherwise those of this process, even when standard descriptors of this process are closed; it inherits nothing else, and the end of data is seen when the other side ends. A start which fails at any step (missing program or folder, no descriptors) is reported with its reason, leaves no process, zombie or descriptor behind and can be repeated. join() returns the exit code or the signal of the process; a timed join returns true once the process ended (whether or not the signal of its end arrives) and false not before its timeout; isRunning(), the exit code and the gate agree with the state after any history of start, stop, end, join and detach.',
 ['inputs', 'histories', 'fault_sequences'], 'all argument lists and command line texts up to the stated length over the special characters; all combinations of redirections and closed standard descriptors; every failing step of a start; all histories of a process object up to the stated depth; real child processes with a helper program, virtual clock for timed joins', 'No test starts a process; failures need a descriptor collision, a failing system call or an ignored signal.',
 ['src/lightspeed/mt/linux/process.cpp', 'src/lightspeed/mt/process.h', B+'base/linux/fileio.cpp', B+'base/linux/main.cpp'],
 [('Process', 'src/lightspeed/mt/process.h'), ('GlobalSigChildWait', 'src/lightspeed/mt/linux/process.cpp')])

prop('C45', 'Exceptions keep type, values, location and reasons wherever they are passed',
 'An exception of any class, passed on in any way the library uses - cloned, cloned in an allocator, thrown again, rethrown, captured as the current exception, any number of times and after the original is gone - keeps its class, its values, its message, its location and its chain of reasons; exceptions of the standard library and of unknown classes are captured with what is known of them. The message contains every value of the exception (names, numbers, limits, the description of the system error), of any length; what(), the long message and the message with reasons agree with the exception at any time and contain the whole chain. A reason attached to an exception is added to the end of the chain of this exception only: no copy of it, no exception used as a reason and no exception of another thread changes, the chain never becomes a cycle, and nothing is leaked or touched after it was destroyed, under every interleaving of threads using the same exception.',
 ['inputs', 'histories', 'schedules'], 'every exception class of base/exceptions and the classes made by its templates and macros, with reasons 0-2, passed on in all sequences of six ways up to the stated depth; all histories of attaching, copying and throwing with three exceptions; all schedules of two or three threads up to the stated number of deviations', 'Tests look at few messages of exceptions thrown directly; losses need a particular class, a particular way of passing it on, or a shared chain of reasons.',
 [B+'base/exceptions/exception.cpp', B+'base/exceptions/exception.h', B+'base/exceptions/messages.cpp', B+'base/exceptions/systemException.h', B+'base/exceptions/rangeException.h', B+'base/exceptions/exceptionMsg.tcc', B+'base/linux/systemException.cpp', B+'base/memory/cloneable.h'],
 [('Exception', B+'base/exceptions/exception.h'), ('ErrNoException', B+'base/exceptions/systemException.h'), ('ICloneable', B+'base/memory/cloneable.h')])

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    sys.path.insert(0, V)
    from checks import CHECKS
    na = {}
    try:
        from checks import NOT_APPLICABLE
        na = NOT_APPLICABLE
    except ImportError: pass
    checks = []
    for p in P:
        i = p['id']
        if i not in CHECKS: continue
        c = CHECKS[i]
        mc = any(k == 'mc' for k, h in c['harness'])
        checks.append(dict(property=i, quick_cmd='python3 vc.py check %s' % i, thorough_cmd='python3 vc.py check %s --thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=c.get('technique', 'stateless model checking of the real code: preemption-bounded exhaustive schedule exploration with happens-before state caching' if mc else
              'exhaustive bounded enumeration of operation sequences, inputs and environment answers on the real code against a reference model'),
            level=c.get('level', 'model_checking'),
            level_note=c.get('note', 'Exhaustive within the bounds recorded in the evidence file (scenarios, preemptions, timeouts); assumes sequentially consistent memory and that the small drivers expose the behaviour.' if mc else
              'Exhaustive within the alphabet and depth recorded in the evidence file; the reference model in the harness is trusted.')))
    man = dict(version=1, setup_cmd='python3 vc.py setup', checks=checks,
        hooks=dict(guard='none', enable='no hooks: the checks instrument /repo at compile time (clang -fsanitize=thread / address) and interpose libc at link time', source_commits=[]),
        not_applicable=[dict(property=p['id'], reason=na.get(p['id'], 'check not built yet')) for p in P if p['id'] not in CHECKS],
        notes='See DESIGN.md. Every check rebuilds the needed part of /repo/src with its own build files.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
    except ImportError: return
main()
