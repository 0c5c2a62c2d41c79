#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from one table.

Run by hand (python3 tools/gen.py) after editing; the outputs are committed.
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []      # properties
NA = {}     # id -> reason


def prop(pid, title, statement, over, text, why, files, mech, observe, state=None,
         technique='', note='', na=None, level='exploration'):
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None,
                               **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})),
                  _technique=technique, _note=note, _na=na, _level=level))


FR = 'src/stream/framer.c'
FRH = 'include/embc/stream/framer.h'
TRUST = ('Held on the executions run (counts in the evidence file), not proved. Trusts gcc/clang sanitizers and the '
         'reference oracle in harness/; ')

prop('C01', 'Messages cross a faulty link intact, in order, exactly once',
     'When two framer endpoints exchange messages over a byte link that drops, corrupts, inserts or delays bytes, every message whose send is reported successful is handed to the matching port of the other endpoint exactly once, with identical port, message id, port data and payload, and messages are delivered in the order they were sent. '
     'Nothing that was not sent is ever delivered. '
     'This holds as long as no message is lost on so many consecutive transmissions that its retry budget runs out or the receiver\'s in-order wait expires.',
     ['fault_sequences', 'schedules', 'inputs'],
     'All message sequences (ports, ids, payload sizes 0..240), all byte-level fault patterns within the stated loss bound, all transmit/receive/timer interleavings, in both directions at once and across many wraps of the 4-bit frame id.',
     'The unit tests drive one endpoint with hand-written frames and at most six messages; they never connect two endpoints, never wrap the frame id under loss, and never combine corruption with retransmission.',
     [FR, FRH], [('frame id / receive bitmap window', FR), ('in-order pending list', FR), ('ack mask and retransmission', FR)],
     ['port receive callback', 'port transmit-done callback'],
     [('receive window', 'next expected frame id and bitmap of received ids', FR)],
     'two-endpoint virtual-time simulation with byte-level fault injection; online exactly-once/in-order history checker; ASan+UBSan',
     TRUST + 'a FIFO byte link and virtual time.')

prop('C02', 'The receiver accepts exactly the valid frames in any byte stream',
     'For any sequence of received bytes, fed byte by byte or in blocks, the set and order of frames accepted is exactly the frames a direct reading of the documented format finds (start byte, valid header CRC, length at most 240, valid frame CRC-32), unmodified. '
     'No byte sequence makes the receiver fail fatally, access memory out of bounds, deliver a corrupt frame, or lose a valid frame that follows noise, and every damaged frame and loss of synchronisation it answers is answered with the matching status and counted in the link status.',
     ['inputs', 'fault_sequences'],
     'All byte streams: random noise, truncated/spliced/bit-flipped frames, false start bytes, frames nested in the payload area of damaged frames, over-long lengths, reserved bits and ports.',
     'Tests feed about ten fixed streams; resynchronisation has data-dependent paths (false headers swallowing real frames) that only appear for particular byte layouts.',
     [FR], [('receive state machine', FR), ('resynchronisation scan', FR), ('header CRC-8 and frame CRC-32', FR + ', src/crc.c')],
     ['receive hook', 'port receive callback', 'acknowledgement frames emitted'], None,
     'differential monitor against an independent reference decoder over generated hostile byte streams; ASan+UBSan',
     TRUST + 'an independent decoder written from the header documentation.')

prop('C03', 'Every send completes exactly once, in bounded time, truthfully',
     'Each message given to the framer for sending produces exactly one completion callback on its port, carrying its message id and port data, within the bounded retry time after it becomes eligible, whether the peer acknowledges, negatively acknowledges, answers garbage or stays silent, and later messages then proceed. '
     'Success is reported only if the peer acknowledged that frame (by frame id, port and message id, or through the mask of such an acknowledgement); a frame the peer did acknowledge is not reported as failed, and an unacknowledged one is only after the retry budget. '
     'A message is first transmitted as soon as fewer than three frames and no resync are outstanding before it, and an unacknowledged frame is repeated within one retry period (250 ms) of its latest transmission.',
     ['fault_sequences', 'histories', 'schedules'],
     'All histories of sends, acknowledgements (in any order, duplicated, with any mask/status), losses, transmitter completion delays and timer expiries.',
     'Tests complete at most three frames with a scripted peer and never mix a failed frame with queued or already acknowledged ones.',
     [FR], [('outstanding frame table and retry counter', FR), ('timer scheduling', FR), ('transmit queue', FR)],
     ['transmit-done callback', 'bytes handed to the transmitter', 'timer set/cancel callbacks'], None,
     'scripted-adversary peer in virtual time; per-send completion ledger checked online; bounded-progress check after faults stop; ASan+UBSan',
     TRUST + 'bounded progress is checked in virtual time, not eventual liveness.')

prop('C04', 'Buffers belong to the transmitter until done; one timer at a time',
     'A buffer handed to the transmit driver is not modified, freed, reused or handed over again until the driver reports it done, whatever acknowledgements, timeouts or resync requests occur meanwhile. '
     'At most one timer is armed at any time, an armed timer is cancelled before another is armed, and a timer that has fired (also from within the call that set it) or was cancelled is never cancelled again: its identifier may belong to somebody else by then.',
     ['schedules', 'histories', 'fault_sequences'],
     'All orderings of driver completion relative to acknowledgements, negative acknowledgements, timeouts, peer data and link resync.',
     'Every unit test reports the driver done before the acknowledgement or timeout arrives.',
     [FR, FRH], [('outstanding frame status', FR), ('timer schedule/cancel', FR)],
     ['transmit driver callback', 'timer callbacks', 'contents of in-flight buffers'], None,
     'ownership monitor in the simulated driver (content checksum at hand-over and completion, double-submit, freed-in-flight detection) under adversarial completion order; ASan+UBSan',
     TRUST + 'the driver contract documented in framer.h.')

prop('C05', 'Transmitted frames are well formed, windowed and retried boundedly',
     'Every byte block handed to the transmit driver is one complete frame in the documented format with valid CRCs; data frame ids increase by one modulo 16 in send order; no more than three unacknowledged data frames are outstanding and none of them is overtaken by three or more newer ones; a frame is retransmitted byte-identically, at most sixteen times and not after its acknowledgement. The frame constructors produce exactly the documented bytes. '
     'Payload bytes, port, message id and port data on the wire equal those given by the application for every payload length from 0 to 240, and a longer payload is refused.',
     ['inputs', 'histories', 'fault_sequences'],
     'All payloads, lengths, ports and port data, with any acknowledgement/timeout history.',
     'Tests compare one fixed 8-byte payload against the library\'s own frame constructor.',
     [FR, FRH], [('frame construction', FR), ('window of three outstanding frames', FR), ('retry limit', FR)],
     ['transmit driver callback'], None,
     'wire monitor parsing every transmitted block with an independent decoder; window/sequence/retry automaton; ASan+UBSan',
     TRUST + 'independent CRC implementations.')

prop('C06', 'Each data frame is acknowledged correctly and delivered in sequence',
     'For any arrival pattern of data frames that a conforming three-outstanding sender can produce, each frame received intact is answered with exactly one success acknowledgement naming it and a mask that marks exactly the earlier and later frames received, a damaged payload is answered with one negative acknowledgement naming the frame, and duplicates are acknowledged but not delivered again. '
     'Frames are delivered to their ports in id order no matter how they were reordered inside the window, including where the id wraps, each to the object registered for its port, and the link status counts exactly the duplicates, damaged payloads and synchronisation errors met.',
     ['histories', 'schedules', 'inputs'],
     'All reorderings, duplications and losses of data frames within the window, starting at every position of the 4-bit id space.',
     'Tests check four permutations of frames 0..2 immediately after start-up and never at the id wrap.',
     [FR], [('receive bitmap', FR), ('ordered insertion into the pending list', FR), ('ack construction', FR)],
     ['port receive callback', 'acknowledgement frames'], None,
     'reference receiver-window model compared frame by frame against the real endpoint over enumerated and random window arrival patterns; ASan+UBSan',
     TRUST + 'a window model written from the documentation.')

prop('C07', 'Link management: ping, status and resync do what they say',
     'A ping request is answered by exactly one ping response with the same message id and payload, a status request by one response carrying the current link counters, and both for every payload size. '
     'After either side restarts or its frame ids diverge arbitrarily, a resync command restores in-order exactly-once delivery from the next message on, and sends pending at the time are reported aborted exactly once and, once the resync is acknowledged, never delivered.',
     ['histories', 'inputs', 'crash_points'],
     'All ping/status payload sizes, all frame-id offsets between the peers, all counts of queued/outstanding messages when resync or restart happens.',
     'Tests ping with one payload and resync an idle endpoint at a single id.',
     [FR, FRH], [('port 0 command handling', FR), ('resync purge', FR)],
     ['port 0 callbacks', 'status counters', 'transmit-done callback'], None,
     'two-endpoint simulation with restart and resync injected at arbitrary points; request/response matching monitor; ASan+UBSan', TRUST + 'virtual time.')

prop('C08', 'The link never leaks or double-frees message buffers',
     'For any traffic, valid or hostile, and any fault history, every buffer taken from the allocator is owned by exactly one party and once the link is idle the number of buffers in use equals what was in use after initialisation, whether or not the ports have callbacks. '
     'A remote peer cannot exhaust the allocator.',
     ['inputs', 'fault_sequences', 'histories'],
     'All received byte streams and all send/ack/timeout/resync histories, long enough that a leak of one buffer per event exhausts the pool.',
     'Tests run few frames against a pool large enough to hide leaks, and never count buffers.',
     [FR, 'src/memory/buffer.c'], [('buffer free on every receive path', FR), ('buffer free on completion', FR)],
     ['allocator exhaustion probe at quiescence', 'fatal handler'], None,
     'conservation monitor: buffer census by exhaustion at quiescent points after hostile and lossy traffic; ASan+UBSan', TRUST + 'all buffers come from one allocator.')

prop('C09', 'The buffer allocator hands out disjoint, adequate, recyclable buffers',
     'For any pool configuration and any sequence of allocations and frees, each allocated buffer holds at least the requested size, is empty with cleared fields, overlaps no other live buffer, and freed buffers become available again so that the number obtainable per size class always equals the configured number. '
     'Exhaustion and requests larger than the largest class are reported (fatal or null) without corrupting anything.',
     ['configurations', 'histories', 'inputs'],
     'All size-class configurations (including empty classes), all request sizes, all interleavings of alloc and free.',
     'Tests use one configuration and two request sizes.',
     ['src/memory/buffer.c'], [('size to class mapping', 'src/memory/buffer.c'), ('per-class free list', 'src/memory/buffer.c')],
     ['returned buffers', 'fatal handler'], None,
     'reference allocator model with disjointness/pattern shadow checks over random configurations and histories; ASan+UBSan', TRUST + 'single-threaded use.')

prop('C10', 'Buffer reads, writes and edits never leave the buffer bounds',
     'For every sequence of cursor moves, typed or block reads and writes, string writes, copies, erases and resets, the buffer behaves as a byte array with cursor and length: contents, cursor and length match that model, and cursor ≤ length ≤ capacity always holds. '
     'An operation that would read past the length or write past capacity minus the reserve is refused with a fatal error (or truncates and says so for the truncating variant) and touches no memory outside.',
     ['inputs', 'histories'],
     'All operation sequences, sizes, capacities, reserves and cursor positions.',
     'Tests exercise a 32-byte buffer with a few operations, mostly from cursor 0 or the end.',
     ['src/memory/buffer.c', 'include/embc/memory/buffer.h'], [('bounds assertions', 'src/memory/buffer.c'), ('length update', 'src/memory/buffer.c')],
     ['buffer contents, cursor, length', 'fatal handler'], None,
     'lock-step byte-array reference model; redzone pattern around storage; ASan+UBSan', TRUST + 'contract violations longjmp out of the fatal handler.')

prop('C11', 'Fixed-size pools hand out disjoint aligned blocks and recycle them',
     'A pool of N blocks gives out exactly N distinct, non-overlapping, pointer-aligned blocks of at least the block size inside its memory, reports emptiness truthfully, is exhausted at N+1 (fatal, or null for the non-fatal variant), and each freed block can be obtained again. '
     'Contents of live blocks are never disturbed by other pool operations.',
     ['configurations', 'histories'], 'All block counts and sizes, all alloc/free interleavings.',
     'Tests use one or two configurations and a short sequence.',
     ['src/memory/pool.c'], [('free list', 'src/memory/pool.c'), ('size computation', 'src/memory/pool.c')],
     ['returned pointers', 'fatal handler'], None,
     'set model plus per-block fill patterns over random configurations; ASan+UBSan', TRUST + 'single-threaded use.')

prop('C12', 'Pooled objects live exactly as long as their references',
     'Each object obtained from an object pool is constructed once per allocation and starts with one reference; it is destructed exactly once, when its reference count returns to zero, and only then becomes available for reuse. '
     'Objects are distinct while live, and the user area of a live object is never disturbed.',
     ['histories', 'configurations'], 'All sequences of alloc, reference increment and decrement over pools of every size and object size, with and without constructor/destructor.',
     'Tests use tiny scripts with one object.',
     ['src/memory/object_pool.c'], [('reference count', 'src/memory/object_pool.c'), ('constructor/destructor calls', 'src/memory/object_pool.c')],
     ['constructor/destructor callbacks', 'returned pointers'], None,
     'lifetime ledger driven by constructor/destructor callbacks against a reference count model; ASan+UBSan', TRUST + 'the ledger kept by the harness.')

prop('C13', 'The bitmap block allocator finds space whenever it exists',
     'For any region and block size and any sequence of variable-size allocations and frees, returned ranges are block-aligned, inside the region, and disjoint, an allocation succeeds exactly when a sufficient contiguous free run exists, and failure is reported as null or fatal according to the variant. '
     'Freed ranges are immediately reusable and live data is never disturbed.',
     ['histories', 'configurations', 'inputs'], 'All region/block sizes and all alloc/free sequences with fragmentation.',
     'Tests use a 32-block region and allocate mostly from one end; space lying before a used block in the same bitmap byte is never tried.',
     ['src/memory/block.c'], [('bitmap search', 'src/memory/block.c')],
     ['returned pointers', 'fatal handler'], None,
     'interval-set model with success-iff-run-exists oracle; ASan+UBSan', TRUST + 'single-threaded use.')

prop('C14', 'The integer map behaves as a map for every key and history',
     'For every sequence of put, get and remove with any integer keys, the map returns the value last put for a key, reports the previous value on replacement and removal, reports not-found otherwise, and its length is the number of keys present, through every internal growth. '
     'All memory it allocates is released by removal and free.',
     ['histories', 'inputs'], 'All keys (including heavily colliding ones) and all operation sequences up to many growth steps.',
     'Tests insert consecutive keys 0..255, which never collide, and never check memory.',
     ['src/collections/intmap.c', 'include/embc/collections/intmap.h'], [('hash bins and growth', 'src/collections/intmap.c')],
     ['return values', 'allocator hooks'], None,
     'reference dictionary in lock step, colliding key families, heap ledger; ASan+UBSan', TRUST + 'the documented API contract.')

prop('C15', 'Integer-map iteration visits every entry once and terminates',
     'An iterator over an integer map returns each entry present exactly once with its value and then reports the end, for any key set. '
     'Removing any entry while iterating keeps the iterator valid: removed entries not yet visited are not returned and all other remaining entries still are, exactly once.',
     ['histories', 'inputs'], 'All key sets (every bin populated, chains, last bin) and all removal patterns during iteration.',
     'Tests iterate three entries and never reach the end.',
     ['src/collections/intmap.c'], [('iterator next/removal notification', 'src/collections/intmap.c')],
     ['iterator results'], None, 'reference set with visit ledger under removals during iteration; ASan+UBSan', TRUST + 'no insertion while iterating.')

prop('C16', 'The hash map behaves as a map for every key and history',
     'For every sequence of operations with any keys, the hash map returns the value last put for an equal key, reports not-found otherwise, and its length is the number of distinct keys, including when many keys share a hash. '
     'Freeing it releases all of its memory.',
     ['histories', 'inputs'], 'All key contents and hash collisions, all operation sequences.',
     'Tests insert a handful of keys.',
     ['src/collections/hashmap.c'], [('uthash-style bins', 'src/collections/hashmap.c')], ['return values', 'allocator hooks'], None,
     'reference dictionary with adversarial hash functions, heap ledger; ASan+UBSan', TRUST + 'implemented operations only (put/get/length/free).')

prop('C17', 'The string map behaves as a map for every key and history',
     'For every sequence of put, get and remove with any strings as keys, the string map returns the value last put for an equal string, reports the previous value on replacement and removal, reports not-found otherwise, and its length is the number of distinct keys present, including for keys whose hashes collide. '
     'Keys are copied, so later changes to the caller\'s memory have no effect, and all memory is released by removal and free.',
     ['inputs', 'histories'], 'All strings (empty, long, high-bit bytes, shared prefixes, equal hashes) and all operation sequences.',
     'Tests use a few short ASCII words that never collide and never check memory.',
     ['src/collections/strmap.c', 'include/embc/collections/strmap.h'], [('hash chains', 'src/collections/strmap.c'), ('key copy', 'src/collections/strmap.c')], ['return values', 'allocator hooks'], None,
     'reference dictionary over generated strings incl. hash-colliding families; caller memory overwritten after each call; heap ledger; ASan+UBSan', TRUST + 'the documented API contract.')

prop('C18', 'Linked lists stay well formed under every operation sequence',
     'For every sequence of add, insert, remove, append and query operations on any number of lists, each list holds exactly the items a sequence model predicts, in the same order both forwards and backwards, an item is in at most one list, and membership, length, index and head/tail queries agree with the contents. '
     'Removing the current item while iterating is safe.',
     ['histories'], 'All operation sequences over several lists sharing items, including empty lists as operands.',
     'Tests run short scripts on non-empty lists.',
     ['include/embc/collections/list.h', 'src/collections/list.c'], [('circular doubly linked list', 'include/embc/collections/list.h')],
     ['list traversal'], None, 'sequence reference model with full forward/backward structural walk after each step; ASan+UBSan', TRUST + 'operands valid per contract.')

prop('C19', 'Scheduled events fire once, in time order, never early, unless cancelled',
     'Every scheduled event fires exactly once, at the first processing call whose time has reached its timestamp, never earlier, in timestamp order (ties in scheduling order), and a cancelled event never fires. '
     'This holds when callbacks themselves schedule or cancel events, and the reported next time and interval always describe the earliest pending event. Memory in use is bounded by the number of pending events, however long the manager runs.',
     ['histories', 'schedules', 'inputs'], 'All schedules of timestamps, cancellations and processing times, including schedule/cancel from inside callbacks.',
     'Tests schedule two events and never act from a callback.',
     ['src/event_manager.c'], [('sorted pending list', 'src/event_manager.c'), ('processing loop', 'src/event_manager.c')],
     ['event callbacks', 'next-time queries'], None,
     'reference pending-set model fed by callback trace, with in-callback schedule/cancel; heap ledger; ASan+UBSan', TRUST + 'timestamps > 0.')

prop('C20', 'State machines follow their transition tables exactly',
     'For any transition table and event sequence, the machine takes the first matching transition whose guard allows it, runs exit and enter handlers in order around the state change, ignores unmatched events, and performs reset transitions as defined, ending in the state the table dictates. '
     'Events raised from inside handlers are processed afterwards, in the order raised, exactly once.',
     ['programs', 'histories', 'schedules'], 'All transition tables and all event sequences including events raised inside handlers and guards.',
     'Tests drive one fixed table.',
     ['src/fsm.c', 'include/embc/fsm.h'], [('transition dispatch', 'src/fsm.c'), ('pending event queue', 'src/fsm.c')],
     ['enter/exit/transition handlers', 'current state'], None,
     'table-driven reference interpreter compared on the handler-call trace for randomly generated machines; ASan+UBSan', TRUST + 'well-formed tables, at most the documented number of queued events.')

prop('C21', 'The command line executes exactly what was typed',
     'For any sequence of typed characters, each completed line is executed exactly once with text equal to the typed characters after backspaces are applied and whitespace is normalised, comment and blank lines are never executed, and a line longer than the limit is reported and never executed, in part or otherwise. '
     'Echo, prompt and response output match the configured modes, and no input corrupts memory.',
     ['inputs', 'histories', 'configurations'], 'All character sequences, echo/verbosity modes, prompts, and line lengths around the limit.',
     'Tests type about a dozen fixed lines.',
     ['src/cli.c', 'include/embc/cli.h'], [('line buffer', 'src/cli.c'), ('whitespace normalisation', 'src/cli.c')],
     ['execute callback', 'print callback'], None,
     'reference line editor compared on execute/print trace over generated keystroke streams; ASan+UBSan', TRUST + 'reference editor written from cli.h and the test-suite examples.')

prop('C22', 'Command arguments are split faithfully',
     'For any command line, the argument handler is called once with exactly the tokens separated by spaces, tabs and commas, in order and NUL-terminated, up to the documented maximum count; a blank line calls nothing; too many or too long arguments are reported as an error. '
     'The caller\'s string is not modified, no memory outside the string is read, and the handler\'s result is returned.',
     ['inputs'], 'All strings over separators and printable characters, lengths 0 to beyond the limit, argument counts around the maximum.',
     'Tests parse four fixed lines.',
     ['src/cli.c', 'include/embc/cli.h'], [('argument tokenizer', 'src/cli.c')], ['argument callback'], None,
     'reference tokenizer, exact-size heap strings under ASan; UBSan', TRUST + 'documented limits.')

prop('C23', 'String utilities are bounded and agree with their definitions',
     'For all strings and target sizes, copying and joining produce the NUL-terminated longest fitting prefix and report truncation truthfully without touching memory beyond the target; case-insensitive compare and prefix tests, case conversion, table lookup, boolean and hex-digit conversion agree with their definitions. '
     'Null arguments are handled as documented.',
     ['inputs'], 'All strings, target sizes from 0 up, tables and characters.',
     'Tests use a few literals.',
     ['src/cstr.c', 'include/embc/cstr.h'], [('bounded copies', 'src/cstr.c')], ['return values and targets'], None,
     'definition oracles over generated strings with exact-size guarded targets; ASan+UBSan', TRUST + 'ASCII semantics.')

prop('C24', 'Numeric parsing accepts exactly valid in-range numbers',
     'Parsing a string as an unsigned, signed or scaled decimal integer (or, where enabled, as a float) succeeds exactly when the text is a number in the documented syntax whose value fits the result type, and then yields that value; otherwise it reports failure and leaves the output untouched. '
     'No input causes undefined behaviour.',
     ['inputs'], 'All strings: signs, whitespace, hex prefixes, digit strings of any length, fractions, trailing garbage, boundary values.',
     'Tests use small well-formed numbers.',
     ['src/cstr.c'], [('digit accumulation', 'src/cstr.c')], ['return value and output'], None,
     'arbitrary-precision reference parser over grammar-generated and mutated strings; ASan+UBSan', TRUST + 'syntax as documented in cstr.h.')

prop('C25', 'CRCs equal their definitions for all data and any split',
     'For all data and lengths each CRC equals the bitwise definition of its polynomial, and computing it incrementally over any partition of the data gives the same value as computing it at once. '
     'Any single-bit change and any burst no longer than the CRC width changes the value.',
     ['inputs'], 'All data blocks up to kilobytes, all alignments, all partitions.',
     'Tests use seven short vectors and one split.',
     ['src/crc.c'], [('table/nibble CRC', 'src/crc.c')], ['CRC values'], None,
     'bit-serial reference CRC with all split points and injected bit/burst errors; ASan+UBSan', TRUST + 'polynomials as pinned by the published vectors.')

prop('C26', 'The LFSR sequence has full period and its follower finds every break',
     'From any seed the generator steps through all 65535 non-zero states of x^16+x^14+x^13+x^11+1 before repeating and never sticks at zero, and reading single bits, bytes, 16-bit or 32-bit words yields the same bit sequence. '
     'A follower fed the sequence from any position reports no error; it reports and counts each byte that does not continue the sequence of the two bytes before it (except the byte that completes a resynchronisation), and follows again two bytes after a break, reporting meanwhile how many bits it still needs.',
     ['inputs', 'histories'], 'All states and positions of the period, all mixes of read widths, all patterns of corrupted, lost, repeated or stuck bytes.',
     'Tests step a few positions from the default seed and inject one break.',
     ['src/lfsr.c', 'include/embc/lfsr.h'], [('feedback polynomial', 'src/lfsr.c'), ('follower resynchronisation', 'src/lfsr.c')], ['generated bits/bytes', 'follow return code and error count'], None,
     'exhaustive full-period walk plus bit-serial reference register and reference follower over faulty streams; ASan+UBSan', TRUST + 'documented polynomial.')

prop('C27', 'The test-pattern receiver accounts for every word',
     'The pattern transmitter produces the documented word sequence, and a receiver fed that sequence from any starting point counts every word as received with no errors; when words are dropped, duplicated or corrupted the receiver counts exactly what happened within its documented resolution and resynchronises. ',
     ['fault_sequences', 'inputs'], 'All starting offsets and all drop/duplicate/corrupt patterns separated enough to be distinguishable.',
     'Tests inject single faults near the start of the sequence.',
     ['src/pattern_32a.c', 'include/embc/pattern_32a.h'], [('sync/resync state machine', 'src/pattern_32a.c')], ['receiver counters'], None,
     'fault-injecting channel between transmitter and receiver with an event ledger; ASan+UBSan', TRUST + 'faults separated by clean words.')

prop('C28', 'Streams deliver the source bytes exactly, in order, and close once',
     'Connecting a source to a consumer through the stream protocol delivers exactly the source\'s bytes, in order, in blocks never larger than the negotiated maximum, each block returned once, followed by exactly one close, for every file size, block size and buffer mode. '
     'A sink stores exactly what it was sent or reports the overflow.',
     ['inputs', 'configurations', 'schedules'], 'All source sizes, transfer sizes, memory modes and consumer pacing.',
     'Tests transfer one small file in one mode.',
     ['src/stream/async_source.c', 'src/stream/async_sink.c', 'src/stream/async.c', 'include/embc/stream/async.h'],
     [('open/ready/write/close transactions', 'src/stream/async_source.c')], ['transactions exchanged'], None,
     'protocol monitor between real source and real/adversarial sink over random sizes and modes; ASan+UBSan', TRUST + 'protocol as documented in async.h.')

prop('C29', 'Time conversions are exact, monotonic and overflow-free in range',
     'Within the representable range, converting between the fixed-point time type and seconds, milliseconds, microseconds, nanoseconds, counters and floating point is monotonic, round-trips to within one unit and never overflows. '
     'Conversions from time to a counter round as documented (nearest, up or down); conversions from a counter to time are exact to within one unit of the time type. Each macro evaluates its arguments once, and constants and conversions keep their value as operands in any expression.',
     ['inputs'], 'All 64-bit time values in the documented range and all counter frequencies.',
     'Tests check around 1 second.',
     ['include/embc/time.h'], [('scaled rounding macros', 'include/embc/time.h')], ['conversion results'], None,
     '128-bit reference arithmetic over log-uniform and boundary values; UBSan overflow detection', TRUST + 'range restricted as listed in DESIGN.md.')

prop('C30', 'Byte encodings are exact inverses in both byte orders',
     'Encoding any 8, 16, 32 or 64-bit value in either byte order writes exactly its width in the defined byte sequence, and decoding returns the value, at any alignment. The cursor functions advance by exactly the width; nothing outside those bytes is read or written.',
     ['inputs'], 'All values, alignments, byte orders and sequences of mixed items.',
     'Tests use one value per width.',
     ['include/embc/bbuf.h'], [('encode/decode macros', 'include/embc/bbuf.h')], ['bytes written', 'values read'], None,
     'shift-based reference encoder at all alignments in exact-size guarded memory; ASan+UBSan', TRUST + 'little-endian host.')

prop('C31', 'Logging emits exactly the enabled levels, and names are correct',
     'A log statement produces output exactly when its level is enabled by both the module and global level, with the configured prefix and formatted text, and is otherwise free of side effects. '
     'Every level and every error code maps to its own name and description, and out-of-range codes map to the unknown text.',
     ['inputs', 'configurations'], 'All levels, all level thresholds, all integer error codes, before and after handler registration.',
     'Tests cover two thresholds and a few codes.',
     ['src/log.c', 'include/embc/log.h', 'src/ec.c', 'include/embc/ec.h'], [('level filter', 'include/embc/log.h'), ('name tables', 'src/log.c, src/ec.c')],
     ['log output handler', 'returned strings'], None,
     'level-by-threshold matrix and full code-range sweep against an independent table; ASan+UBSan', TRUST + 'compile-time thresholds instantiated in the harness.')

prop('C32', 'Contract checks stop exactly the violating calls',
     'Every argument, range (over int) and pointer check in the contract macros passes silently for values that satisfy it and otherwise invokes the fatal handler (or returns the documented error, the one the module defined if any) exactly once, before any effect. '
     'Arithmetic helper macros (rounding, min/max, array size, container lookup) equal their mathematical definitions in range, for arguments that are arbitrary expressions. Public functions documented to reject null, empty or out-of-range arguments do so without other effect.',
     ['inputs'], 'All argument values and boundary cases for each macro, and null/out-of-range calls across the public API.',
     'Tests check a few values per macro.',
     ['include/embc/dbc.h', 'include/embc/argchk.h', 'include/embc/assert.h', 'include/embc/cdef.h', 'src/platform.c'],
     [('contract macros', 'include/embc/dbc.h'), ('argument checks', 'include/embc/argchk.h')], ['fatal handler', 'return values'], None,
     'boundary-value oracle for each macro and API null-call sweep with fatal-handler monitor; ASan+UBSan', TRUST + 'fatal handler does not return.')

prop('C33', 'Bundled formatted printing is bounded and matches C formatting',
     'For the supported conversions (%d %i %u %x %X %o %p with l, ll, z, width, zero pad, left align and alternate form; %s with width and left align; %c and %%) the bundled formatter produces the same text and length as the C library, and never writes beyond the given size, always NUL-terminating when the size is non-zero and returning the full length for any size including 0.',
     ['inputs', 'programs'], 'All supported format strings, argument values and buffer sizes.',
     'The formatter has no tests in this repository.',
     ['third-party/tinyprintf/tinyprintf.c'], [('digit conversion and padding', 'third-party/tinyprintf/tinyprintf.c')], ['output text'], None,
     'differential testing against the C library formatter over generated formats; ASan+UBSan', TRUST + 'libc as oracle on the documented common subset.')

prop('C35', 'Shared-library callbacks and memory behave as registered',
     'When the application registers a fatal handler and a print handler with the shared-library front end, every fatal error reaches exactly the handler registered last with that handler\'s user data and the original file, line and message, and every log statement reaches the print handler exactly once with its complete formatted text (cut, and always terminated, only beyond the documented buffer). '
     'Without a fatal handler the error is printed instead; without any handler nothing breaks. '
     'Library allocation returns zeroed memory of the requested size, disjoint from every live block, and freeing null is harmless.',
     ['histories', 'inputs'], 'All sequences of handler registration, replacement and removal, messages of any content and length, and allocation histories.',
     'The shared-library front end has no tests.',
     ['src/lib.c', 'include/embc/lib.h', 'src/platform.c'], [('handler registration', 'src/lib.c'), ('allocator hook', 'src/platform.c')],
     ['fatal and print callbacks', 'returned memory'], None,
     'recording callbacks compared with a model of the registrations, shadowed allocations; ASan+UBSan and MSan', TRUST + 'stdout is redirected to observe the fallback printing.')

prop('C34', 'The Python bindings behave as the C library does',
     'Everything done through the Python bindings has the effect the C library gives it: buffers hold, return, truncate, share and recycle bytes exactly as C sees them, pattern words and counters equal those of the C transmitter and receiver, error names, numbers and port 0 commands are those of the C headers, and new lists are empty. '
     'A Python framer delivers each payload once, in order and unchanged with its port, message id and port data, reports each completion once with its true status, exposes the C link status, refuses payloads longer than a frame, and releases all its memory when deleted. '
     'Fatal errors and log text reach Python. The framer qualification tool accounts for every ping exactly once (completed, error, missing or timeout; only unanswered pings are missing), and the buffer log checker reports exactly the unpaired allocations and frees of a log the library wrote.',
     ['programs', 'histories', 'fault_sequences'], 'All sequences of binding calls, all buffer sizes and contents, all loss and restart histories of a link between Python framers, all logs.',
     'The binding tests make a handful of calls on a perfect link; one of them no longer matches the library.',
     ['py/embc', 'py/bin'], [('structure layouts and wrappers', 'py/embc/memory/buffer.py'), ('HAL and port callbacks', 'py/embc/stream/framer.py'), ('error table', 'py/embc/ec.py'), ('ping accounting', 'py/bin/framer_qual.py')],
     ['Python return values and callbacks', 'the same objects seen from C', 'tool output'], None,
     'differential monitoring of the bindings against models and a C view of the same objects, over lossy virtual-time links; the library runs under ASan+UBSan', TRUST + 'calls respect the C contracts.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
    built = set()
    for n in os.listdir(os.path.join(ROOT, 'harness')) if os.path.isdir(os.path.join(ROOT, 'harness')) else []:
        if n[0] == 'c' and n[1:3].isdigit() and n[3:] in ('.c', '.py'):
            built.add('C' + n[1:3])
    checks, na = [], []
    for p in P:
        if p['_na']:
            na.append(dict(property=p['id'], reason=p['_na']))
        elif p['id'] in built:
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                               thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                               technique=p['_technique'], level=p['_level'], level_note=p['_note'],
                               evidence_file='evidence/%s.json' % p['id']))
        else:
            na.append(dict(property=p['id'], reason='not yet built: the check for this property is still being written'))
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
             hooks=dict(guard='EMBC_VERIF', enable='no hooks were needed: every monitor observes the public API, so nothing in /repo is guarded', source_commits=[]),
             notes='One harness per property in harness/; check.py builds /repo/src with ASan+UBSan together with it and judges the run. See DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
