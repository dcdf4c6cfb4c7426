#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below and registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS
I, H, S, F, C, P = 'inputs', 'histories', 'schedules', 'fault_sequences', 'configurations', 'programs'
L = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- sync
p('S01', 'A mutex is held by at most one thread at a time, re-entrantly',
  'At every moment at most one thread (over all processes and all objects attached to the same name) holds a given mutex; the holder may lock the same object again, and the mutex becomes free exactly when it has been unlocked as often as it was locked. Locking or unlocking by a thread that may not do so fails without effect, and with no competitor a free mutex can always be locked.',
  [S, H], 'every interleaving of lock/unlock calls by any number of threads through unnamed objects and through several objects of one name',
  'The test suite locks and unlocks from one thread, so no interleaving is ever exercised.',
  ['sync/sync_mutex.cpp', 'sync/sync_util.cpp'], [('owner and recursion count', 'Mutex::Lock/Unlock'), ('recursive pthread mutex / named mutex in shared memory', 'Mutex::Create')],
  ['return values of Lock/Unlock', 'overlap of critical sections'])
p('S02', 'A semaphore never grants more than its count and loses no unit',
  'The number of holders of a semaphore never exceeds its maximum and, when nobody is in the middle of a call, available units plus units handed out equal the initial amount plus releases (capped at the maximum). A wait succeeds only by taking one unit, and a release returns the previous count through its output parameter and never raises the count above the maximum.',
  [S, H], 'every interleaving of waits (zero, timed, infinite) and releases, for every maximum and initial count, named and unnamed',
  'The suite uses one thread and one short sequence.', ['sync/sync_semaphore.cpp', 'sync/sync_util.cpp'],
  [('semaphore structure in shared memory', 'Semaphore::Wait/Unlock'), ('Util::WaitForUnixSemaphore and friends', 'sync/sync_util.cpp')], ['return values', 'previous count'])
p('S03', 'Events: auto reset releases one waiter per signal, manual stays signaled',
  'An auto-reset event lets exactly one wait succeed per fire (fires while already signaled collapse), and the signal survives until some wait consumes it. A manual-reset event lets every wait succeed from fire until reset and none after a reset until the next fire; reset fails on auto-reset events.',
  [S, H], 'every interleaving of fire, reset and wait calls on manual and auto events, named and unnamed',
  'The suite uses one thread and a fixed sequence.', ['sync/sync_event.cpp', 'sync/sync_util.cpp'],
  [('event structure guarded by mutex and condition variable', 'Util::WaitForUnixEvent/FireUnixEvent/ResetUnixEvent')], ['return values of Wait/Fire/Reset'])
p('S04', 'Reader-writer lock: a writer excludes everyone, readers share',
  'While a writer holds a reader-writer lock no other reader or writer holds it, while any number of readers may hold it together; a read unlock while there are no readers fails without effect (write unlocks are not checked). Once all holders have released it, a lock of either kind can be taken again, and a writer that only waits for the current readers to leave is not overtaken by readers that arrive later.',
  [S, H], 'every interleaving of read/write lock and unlock calls with any wait time, named and unnamed',
  'The suite uses a single thread.', ['sync/sync_readwritelock.cpp', 'sync/sync_mutex.cpp', 'sync/sync_semaphore.cpp', 'sync/sync_event.cpp'],
  [('writer mutex, reader count and event', 'ReadWriteLock')], ['return values', 'overlap of critical sections'])
p('S05', 'Timed waits end on time and a failed wait changes nothing',
  'A wait with a timeout of T milliseconds on a mutex, semaphore, event or reader-writer lock returns failure no earlier than T after the call and, when the object stays unavailable, does return at T (reader-writer locks: to within a millisecond); a zero wait never blocks and fails only if the object was unavailable or in use by somebody else during the call, and an infinite wait never fails while the object is usable. A wait that fails leaves the object exactly as if it had not been attempted.',
  [S, H, I], 'every timeout value and every interleaving of the timeout with releases', 'The suite never waits on an unavailable object with a real timeout from several threads.',
  ['sync/sync_util.cpp', 'sync/sync_mutex.cpp', 'sync/sync_semaphore.cpp', 'sync/sync_event.cpp', 'sync/sync_readwritelock.cpp'],
  [('absolute deadline computation', 'sync/sync_util.cpp'), ('timed condition wait loops', 'Util::WaitForUnixSemaphore/Event')], ['return value and elapsed clock time'])
p('S06', 'No lost wakeups: nobody stays blocked on something available',
  'Whenever every thread is blocked or finished, no thread is blocked waiting for a mutex, semaphore unit, signaled event or reader-writer lock that it could be granted.',
  [S, H], 'every interleaving of waits with releases, fires and unlocks, including several waiters and named objects', 'Single-threaded tests never block.',
  ['sync/sync_util.cpp', 'sync/sync_semaphore.cpp', 'sync/sync_event.cpp', 'sync/sync_readwritelock.cpp', 'sync/sync_mutex.cpp'],
  [('condition variable signal/broadcast after state change', 'sync/sync_util.cpp')], ['the set of blocked calls at quiescence'])
p('S07', 'Objects of one name are one object; other names and kinds are separate',
  'All objects created under the same name and kind (in any process, any order, also concurrently; names that fit the limit of the system and differ in more than / \\ and _) operate on one shared state whose initial values come from the first creation (or the first one after all its objects were destroyed) only, and objects of different names, of different kinds or without a name do not affect each other. Re-creating or destroying one of the objects neither disturbs the others nor leaves the name locked or leaks what it had attached.',
  [S, H, C], 'every history and interleaving of creations, re-creations and destructions over several names and kinds', 'The suite creates each named object once.',
  ['sync/sync_util.cpp', 'sync/sync_mutex.cpp', 'sync/sync_semaphore.cpp', 'sync/sync_event.cpp', 'sync/sync_readwritelock.cpp'],
  [('Util::InitUnixNamedMem/UnixNamedMemReady/UnmapUnixNamedMem', 'sync/sync_util.cpp')], ['return values of operations through other objects', 'open mappings'])
p('S08', 'Shared memory: one zeroed region per name, first creator told exactly once',
  'All shared-memory objects created with the same name and size (a multiple of four) see the same bytes: what one writes every other reads, and the region starts zeroed, also when it is created again after all its objects were destroyed. Among concurrent creators exactly one is told it is the first, and distinct names or sizes have distinct memory.',
  [S, H, C], 'every interleaving of creations, initialisation and accesses', 'The suite creates one object in one thread.', ['sync/sync_sharedmem.cpp', 'sync/sync_util.cpp'],
  [('first-creator handshake', 'SharedMem::Create, Util::InitUnixNamedMem/UnixNamedMemReady')], ['First()', 'region contents'])
p('S09', 'Thread-local allocator: live blocks are disjoint, intact and reusable',
  'Every block the thread-local allocator returns has at least the requested size, overlaps no other live block of any thread, and keeps its contents until freed or resized; resizing and duplicating preserve the contents, and a request that cannot be satisfied fails leaving everything intact. Freed blocks of the cached sizes are kept for reuse by the same thread and reported by the cache statistics, and leaving a thread returns everything it kept to the system.',
  [H, I, S], 'every sequence of malloc/realloc/free of any sizes in any number of threads', 'The suite allocates a few fixed sizes in one thread.', ['sync/sync_tls.cpp', 'sync/sync_tls.h'],
  [('size-class free lists with header bytes', 'TLS::malloc/free/realloc')], ['addresses and contents of live blocks', 'bytes allocated from the system'])
p('S10', 'Thread-local mixed variable behaves as the value last stored in it',
  'A thread-local mixed variable always holds exactly the integer, floating-point number or byte string last stored in it, with string edits (append, prepend, resize, replace all) equal to the same edits on an ideal unbounded string and the text always zero-terminated. Copies are independent of their source.',
  [H, I], 'every sequence of operations and all string lengths', 'The suite samples a handful of calls.', ['sync/sync_tls.h', 'sync/sync_tls.cpp'], [('MixedVar template', 'sync/sync_tls.h')], ['type, value, string and size'])

# ---------------------------------------------------------------- templates
p('T01', 'Detachable list: links, count and contents follow every edit',
  'After any sequence of insertions (head, tail, before, after), detaches, removals, copies and appends, walking the list forwards and backwards visits exactly the attached nodes in the ideal order and the reported count equals their number. Detached nodes stay alive and owned by the caller; removed or cleared nodes are destroyed exactly once, and copies are deep and independent.',
  [H], 'every history of operations on one or more lists', 'The suite runs fixed insertion/removal scripts.', ['templates/detachable_list.h', 'templates/detachable_list_util.h'], [('node links', 'List::AddToHead/AddToTail/InsertBefore/InsertAfter/Detach')], ['forward/backward walk', 'GetCount', 'live element count'])
p('T02', 'Detachable queue keeps strict order through push, unshift, pop and shift',
  'After any sequence of push, unshift, pop, shift, copy and append operations the queue contains exactly the ideal sequence: elements leave in the order their insertion end dictates, an empty queue yields nothing and reports failure, and the count matches. Every element is destroyed exactly once and copies are deep and independent.',
  [H], 'every history of operations', 'Fixed scripts only.', ['templates/detachable_queue.h', 'templates/detachable_queue_util.h'], [('node links', 'Queue::Push/Pop/Unshift/Shift')], ['returned values', 'walk', 'GetSize', 'live element count'])
p('T03', 'Ordered hash: lookup by key and iteration order both follow every edit',
  'After any sequence of insertions at any position, detaches, re-attachments, removals, copies and clears, a lookup (by integer or string key, any key bytes, any collisions) finds a node exactly if it is attached, and forward and backward iteration visit exactly the attached nodes in the ideal order. Destroying, clearing and copying neither lose nor leak nor double-free nodes, and copies are independent.',
  [H, I, C], 'every history, every key set including colliding ones, every initial table size and both hash functions', 'Fixed scripts; few collisions; copies not compared link by link.', ['templates/detachable_ordered_hash.h', 'templates/detachable_ordered_hash.cpp', 'templates/detachable_ordered_hash_util.h'],
  [('bucket chains plus order links', 'OrderedHash'), ('table growth', 'OrderedHash::DoubleTableSize/resize')], ['Find', 'Next/Prev walk', 'GetSize', 'live count'])
p('T04', 'Packed ordered hash: set, unset and lookup follow the ideal ordered map',
  'After any sequence of set, unset, optimise, copy and assignment operations, a lookup by integer or string key returns exactly the value last set and not unset, iteration yields the live entries in order of first insertion, and position lookups agree with iteration. Growth, rehashing and copying preserve all of it without leaking or corrupting memory, and copies are independent.',
  [H, I, C], 'every history, key set, collision pattern, initial size', 'Fixed scripts.', ['templates/packed_ordered_hash.h', 'templates/packed_ordered_hash.cpp', 'templates/packed_ordered_hash_util.h'], [('inline node array with hash chains', 'PackedOrderedHash')], ['Find', 'iteration', 'GetSize', 'live count'])
p('T05', 'Cache returns only what was stored and loses entries only to collisions',
  'A lookup in the cache either fails or returns exactly the value most recently stored under exactly that key (integer or string), and the cache never holds more than its configured number of entries. An entry disappears only because it was removed, the cache was emptied or replaced, or another key was stored that shares its slot; copies are independent and every stored value is destroyed exactly once.',
  [H, I], 'every history of inserts, lookups, removals and copies', 'Fixed scripts.', ['templates/cache.h', 'templates/cache.cpp', 'templates/cache_util.h'], [('one slot per hash value, overwritten on collision', 'Cache::Insert/Find/Remove')], ['Find results', 'size'])
p('T06', 'Static vector and 2D array are exact containers with value semantics',
  'A static vector or two-dimensional array holds in each cell exactly the last value written there, keeps elements across growth and copies, and compares and assigns by value. Copies are independent and every element is destroyed exactly once.',
  [H, I], 'every history and all sizes', 'Fixed scripts.', ['templates/static_vector.h', 'templates/static_2d_array.h'], [('contiguous storage', 'StaticVector, Static2DArray')], ['cell contents', 'sizes', 'live count'])
p('T07', 'Fast search finds exactly the leftmost match',
  'For any pattern and any data (binary included) the search reports the first occurrence at or after the start position, or that there is none; repeated searches with the same prepared pattern are independent of each other. It never reads outside the pattern or the data.',
  [I], 'every pattern/data pair and comparison function', 'A few literal strings.', ['templates/fast_find_replace.h', 'templates/fast_find_replace_util.h'], [('points of interest search', 'FastFind::Find')], ['returned position'])
p('T08', 'Search and replace equals the ideal left-to-right replacement',
  'Replacing one, a limited number, or all occurrences yields exactly the text obtained by substituting non-overlapping matches from left to right and leaving every other byte untouched, whatever the lengths of pattern, replacement and data and for in-place, static-buffer and growing outputs. Output is never written beyond the destination and a too small destination holds a prefix of the ideal output.',
  [I], 'every pattern/replacement/data triple, limit and buffer size', 'A few literal strings.', ['templates/fast_find_replace.h', 'templates/fast_find_replace_util.h'], [('FastReplace / StaticReplaceAll / in-place replace', 'templates/fast_find_replace.h')], ['output bytes', 'number of replacements'])
p('T09', 'Static mixed variable holds the last value within its fixed buffer',
  'A fixed-size mixed variable holds exactly the integer, floating-point number or string last stored in it; string stores and appends that do not fit keep the longest prefix that fits, prepends that do not fit change nothing, and the string is always zero-terminated inside the buffer. Integers are appended and prepended as their exact digits in the requested base, setting a number does not disturb the string or vice versa, and copies are independent.',
  [H, I, C], 'every sequence of operations, contents and buffer size', 'One buffer size, few calls.', ['templates/static_mixed_var.h'], [('StaticMixedVar template', 'templates/static_mixed_var.h')], ['type, number, string, size'])
p('T10', 'String hash functions compute the named hash of exactly the given bytes',
  'For every message (any bytes, any length, any memory alignment) and every key, the SipHash functions return the SipHash value with the requested numbers of rounds, the DJBX33X functions return the DJB times-33-xor value over four-byte words and then the remaining bytes from the last one back, started from the given key, and the cache key functions return the same DJBX33X value of a byte buffer started from 5381, respectively the 64-bit DJB times-33-xor value of a text byte by byte. The value depends on nothing but the message and the key, and no byte outside the message is read.',
  [I], 'every message, key, number of rounds and alignment', 'The suite never looks at a hash value.', ['templates/detachable_ordered_hash.cpp', 'templates/packed_ordered_hash.cpp', 'templates/cache.cpp'],
  [('GetSipHashKey/GetDJBX33XHashKey', 'OrderedHashUtil, PackedOrderedHashUtil'), ('GetHashKey', 'CacheUtil')], ['returned hash value'])

# ---------------------------------------------------------------- utf8
p('U01', 'Unicode conversion preserves exactly the permitted code points',
  'Converting 8-, 16- or 32-bit text to UTF-8 keeps every permitted code point in order and drops the others (surrogates, non-characters, out of range, stray bytes, a combining mark at the very start); converting UTF-8 to another width yields the same code points up to the first one that is not permitted, skipping stray bytes, so text converted to any width and back is unchanged. Output never exceeds the destination, is the longest whole-character prefix that fits when space runs out, the reported size and consumed position match it, and the allocating forms return the complete zero-terminated result.',
  [I, C], 'every input (valid or malformed), element width and destination size', 'A few literal strings.', ['utf8/utf8_util.cpp', 'utf8/utf8_util.h'], [('ConvertToUTF8/ConvertFromUTF8', 'utf8/utf8_util.cpp')], ['output units, sizes and positions'])
p('U02', 'UTF-8 scanning agrees with the decoded sequence of code points',
  'Stepping through a UTF-8 string yields exactly its code points in order up to the end or the first malformed sequence, with the look-ahead and the combining-mark indication correct; counting counts a base with its marks once, and searching returns the byte offset of the first matching code point, ignoring ones that carry marks unless allowed. No string, however malformed or truncated, makes any of them read out of bounds or loop.',
  [I], 'every zero-terminated byte sequence', 'A few literal strings.', ['utf8/utf8_util.cpp'], [('NextCodePoint/NextASCIICodePoint/FindCodePoint/strlen/IsCombiningCodePoint', 'utf8/utf8_util.cpp')], ['return values'])
p('U03', 'UTF-8 mixed variable holds the last value as whole valid characters',
  'A UTF-8 mixed variable behaves as the fixed-size mixed variable, and its UTF-8 stores and appends keep only whole valid characters that fit. The text is always zero-terminated inside its buffer.',
  [H, I], 'every sequence of operations and contents', 'Few calls.', ['utf8/utf8_mixed_var.h'], [('UTF8MixedVar template', 'utf8/utf8_mixed_var.h')], ['type, value, string'])
p('F01', 'Open file handles read and write exactly like an ideal byte array',
  'Through any sequence of opens (reading, writing, both, creating, create-only, truncating, appending, shared or exclusive), reads, writes, seeks and closes on one or several handles, what is read is exactly what was last written at that position, positions and sizes follow the ideal file (also beyond 4 GB), and the file on disk equals it. Exclusive or create-only opens succeed exactly when permitted, a refused open leaves the file as it was, a new file gets the requested permissions (limited by the mask of the process), and no descriptor is leaked.',
  [H, C], 'every history of operations and open flags', 'One fixed script.', ['utf8/utf8_file_dir.cpp'], [('File class', 'utf8/utf8_file_dir.cpp')], ['bytes read, positions, sizes, file contents'])
p('F02', 'Interrupted, short and failing system I/O never corrupts or misreports',
  'When the operating system interrupts, shortens or fails reads and writes, a file operation either completes, or reports exactly the number of bytes that were transferred (a write that did not transfer everything reports failure) with the position moved by as much. Whole-file copy, move and load never report success with missing or altered bytes, and a failed move keeps the source.',
  [F, I], 'every sequence of interrupted, short and failed system calls', 'No fault is ever injected.', ['utf8/utf8_file_dir.cpp'], [('read/write loops', 'File::Read/Write, File::Copy, File::LoadEntireFile')], ['return values, byte counts and file contents'])
p('F03', 'Line input returns every line once, whatever the ending or length',
  'Reading a file line by line returns exactly its lines in order for every mix of LF, CRLF and CR endings, with or without a final newline, of any length and however reads are split (also by short or interrupted system reads); nothing is lost, duplicated or merged, and zero bytes come out as spaces. At the end of the file it returns nothing more.',
  [I, F], 'every file content, size hint and split of reads', 'One fixed file.', ['utf8/utf8_file_dir.cpp'], [('File::LineInput', 'utf8/utf8_file_dir.cpp')], ['returned lines'])
p('F04', 'Path functions normalise names exactly and never escape their base',
  'Turning a relative or absolute name into an absolute one yields the (absolute, normalised) base directory joined with the name, with empty, "." and ".." components resolved and never above the root; names with forbidden characters or malformed UTF-8 and results that do not fit are refused. Translating a name for the platform changes only its separators, and splitting a name reports the exact positions of file name and extensions.',
  [I], 'every path, base and buffer size', 'A few literal paths.', ['utf8/utf8_file_dir.cpp'], [('File::GetAbsoluteFilename, GetPlatformFilename, GetPlatformFilenameInfo, IsValidFilenameFormat', 'utf8/utf8_file_dir.cpp')], ['output path and return value'])
p('F05', 'File and directory operations act on exactly the named objects',
  'Creating, copying, moving, linking, listing and removing files and directories changes exactly the named objects as requested and reports success exactly if that happened: listing yields every entry once, recursive creation makes every missing level, and recursive removal removes everything below the directory but never follows a symbolic link out of it. Entries come and go only in directories that may be written to, and a move that cannot remove its source is not reported as done. A failed operation leaves other objects untouched.',
  [H, C], 'every tree shape and history of operations', 'One fixed script.', ['utf8/utf8_file_dir.cpp'], [('File and Dir static operations', 'utf8/utf8_file_dir.cpp')], ['the tree on disk, return values'])

# ---------------------------------------------------------------- others
p('J01', 'JSON serializer output is well-formed and denotes the appended values',
  'Whatever sequence of calls is made, the accepted calls produce well-formed JSON that decodes to exactly the values appended (all string bytes escaped as required, integers exact, structure nested as called), and a call that does not belong at that point (missing or unexpected key, unbalanced end, second root) is refused without changing the output. A call that does not fit the buffer is refused leaving the output unchanged and zero-terminated, so it can be retried after switching to another buffer.',
  [H, I, C], 'every call sequence, value, whitespace setting and buffer size', 'One fixed document.', ['json/json_serializer.cpp', 'json/json_serializer.h'], [('mode stack and size precomputation', 'JSON::Serializer')], ['buffer contents and return values'])
p('V01', 'Integer to text is exact in every base and never overruns',
  'Converting any signed or unsigned 64-bit integer to text in bases 2 to 36 gives its canonical digits, with the sign and the optional separator between groups of three, and succeeds exactly when the text with its terminator fits the buffer. Other bases are refused and nothing is written outside the buffer.',
  [I], 'all 64-bit values, bases, separators and buffer sizes', 'A few literal numbers.', ['convert/convert_int.cpp'], [('Int::ToString', 'convert/convert_int.cpp')], ['text and return value'])
p('V02', 'File sizes are rendered with the right unit and exact digits',
  'Rendering any signed or unsigned byte count picks the unit by the documented thresholds and shows the exact whole part and exactly truncated fraction digits with the requested separators and unit name. It fails without overrunning when the buffer is too small.',
  [I], 'all 64-bit values, digit counts, separators, unit names and buffer sizes', 'A few literal numbers.', ['convert/convert_int.cpp'], [('Int::ToFilesizeString', 'convert/convert_int.cpp')], ['text and return value'])
p('R01', 'Random generator reports success only with fully random output',
  'A request for random bytes succeeds only if every requested byte came from the system generator, also when the system delivers them in pieces or is interrupted; otherwise it fails. Random integers lie inside the requested inclusive range (given in either order), every value of the range can occur and none is favoured, and a request that could not get its random bytes fails.',
  [I, F], 'every request size and range, every sequence of short, interrupted or failing system reads', 'No fault injection; few sizes.', ['security/security_csprng.cpp'], [('CSPRNG::GetBytes/GetInteger', 'security/security_csprng.cpp')], ['return values and bytes'])
p('E01', 'Storage locations are complete paths that fit the buffer or are refused',
  'A storage-location query yields the user or system directory derived from the environment, properly terminated and with the application part joined, or fails; it never writes outside the given buffer and never returns a truncated or different path, whatever the environment variables, user database, names and buffer sizes. The same holds for the name and folder of the executable; process, thread and time queries give the caller\'s own process and thread and the current time in microseconds.',
  [I, C], 'every environment, application name and buffer size', 'One environment and big buffers.', ['environment/environment_appinfo.cpp', 'utf8/utf8_appinfo.cpp'], [('AppInfo', 'environment/environment_appinfo.cpp, utf8/utf8_appinfo.cpp')], ['path and return value'])
p('L01', 'Shared library calls reach the named function with the exact arguments',
  'A function bound from a loaded shared library is called with exactly the arguments given and its exact return value comes back; calls on missing libraries or functions fail without calling anything. A library is loaded by the first use of its module object, stays loaded while that object exists and is released when it is destroyed; one-shot calls leave it loaded.',
  [H, C], 'every history of creating modules, binding, calling and destroying them', 'One library and one function.', ['templates/shared_lib.h', 'templates/shared_lib_util.h'], [('dlopen/dlsym wrappers', 'templates/shared_lib.h')], ['recorded calls, return values'])

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in L:
        f.write(json.dumps(x) + '\n')
checks, na = [], []
for x in L:
    if x['id'] in PROPS:
        r = PROPS[x['id']]
        specs = sorted(set(a['spec'] for a in r['runs']))
        checks.append(dict(property=x['id'], quick_cmd='python3 run.py %s quick' % x['id'], thorough_cmd='python3 run.py %s thorough' % x['id'],
            technique='TLA+ specification (%s) model checked with TLC; traces of the real code validated against it' % ', '.join('specs/%s.tla' % s for s in specs),
            level='model_checking',
            level_note=r.get('note', 'The specification is model checked exhaustively for small constants; the implementation is bound to it by validating recorded executions (enumerated and random, seeded) of code rebuilt from the working tree under AddressSanitizer. Trusts the harness, TLC and the sampled executions.')))
    else:
        na.append(dict(property=x['id'], reason='check under construction'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the harness compiles the unmodified sources. known findings: known_findings.txt'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(L), 'properties,', len(checks), 'claimed')
