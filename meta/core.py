"""C01-C14: bit streams, files, promises, threads."""
BITS_TECH = 'stateless model checking of the real code: every operation sequence to a depth over a grid of buffer/content sizes, against a bit-string model'
VS_TECH = 'stateless model checking of the real code: all thread interleavings, completion orders and timeouts up to a deviation bound under a virtual scheduler'
BITS_ASSUME = ['the code is compiled with g++-10 -O1 and AddressSanitizer; an access outside an allocation ends the execution and is reported',
               'the reference model is a plain vector of bits kept by the harness']
VS_ASSUME = ['sequentially consistent memory; scheduling points are every lock, condition, thread, loop and file call and every access (of the compiled code) to a memory cell that two threads reach without a common lock, one of them writing',
             'libuv (mutex, cond, thread, loop, fs) and pthread are replaced by models in lib/vs.cpp: at most four requests of a loop complete out of order, waits may time out at any scheduling point, virtual time advances otherwise only when nothing else can run',
             'at most D deviations from run-until-blocked scheduling per execution (D is listed per unit in the evidence); choices at blocking points are free']
def u(**k): return k
P = {}
P['C01'] = u(title='Bits written to a stream come out unchanged, in order, padded only at the end',
  statement='Whatever sequence of fields, bytes, alignments, flushes and repositionings a writer is given, after the final flush the destination holds exactly the bits that were written, at the positions where they were written, with zero bits only in the last incomplete byte. The position and size the writer reports agree with what was written at every moment. Values wider than their field never disturb neighbouring bits.',
  over=['inputs', 'programs'], text='every sequence of writer calls up to the depth bound x every buffer size of the grid x every kind of destination',
  why='The tests write one fixed pattern with one buffer size; the faults live at buffer ends, at shadow-buffer boundaries and after flush/seek, which only particular sequences reach.',
  files=['src/mg/media/TBitstream.h', 'src/mg/core/bitstream.h', 'src/mg/core/file.h'],
  mech=[('bit cache and buffer spill of the writer', 'src/mg/core/bitstream.h'), ('typed front end', 'src/mg/media/TBitstream.h')],
  builds=['bits'], tech=BITS_TECH, assume=BITS_ASSUME,
  rule='an execution is non-trivial when it produced a destination content (distinct contents are counted); every choice is a call of the public writer interface',
  bounds='sequences up to depth 4 (5-6 thorough) over 9 operations, pairs of every two field widths 1..32, buffers of 4..17 bytes, five kinds of destination',
  design='`harness/bits.cpp` wr_body: the explorer chooses each call (putbits of chosen widths/values, write of bytes, align, flush, set_position...) and compares position, size and final destination bytes with a bit vector after every step.')
P['C02'] = u(title='Reading a stream yields exactly its bits, whatever the sizes and read-ahead',
  statement='Any mixture of reading, peeking, skipping, aligning and byte reads on a stream returns exactly the bits of the underlying content at the reader\'s position and moves the position by exactly what was consumed. The result does not depend on the internal buffer size or on when an asynchronous storage delivers its data.',
  over=['inputs', 'programs', 'schedules'], text='every sequence of reader calls up to the depth bound x buffer sizes x content lengths x every moment of delivery of asynchronous data',
  why='The tests read one file front to back; wrong bits appear only when a multi-bit read straddles the shadow buffer, a refill, or the end.',
  files=['src/mg/core/bitstream.h', 'src/mg/media/TBitstream.h', 'src/mg/core/file.h'],
  mech=[('shadow buffer and refill', 'src/mg/core/bitstream.h'), ('read callbacks', 'src/mg/core/bitstream.h')],
  builds=['bits'], tech=BITS_TECH, assume=BITS_ASSUME,
  rule='distinct operation traces with their results are counted', bounds='depth 4 (5 thorough) over 11 reader operations, content lengths 0..14, buffers 4..13 bytes, five kinds of storage incl. late delivery at every idle or call',
  design='rd_body in `harness/bits.cpp`: explorer-chosen calls on a bitstream over memory, sync file, and a storage that delivers late (delivery moment is a choice); oracle is index arithmetic on the content.')
P['C03'] = u(title='The end of the data is reported exactly when the data ends',
  statement='A reader reports the end if and only if no bits remain; asking for more bits than remain always raises the end-of-data error, never returns invented bits, never reads outside the content, never loops. Data still on its way from an asynchronous storage is never mistaken for the end.',
  over=['inputs', 'programs', 'schedules'], text='every sequence of reader calls that reaches the last bytes x content lengths 0..n x delivery moments',
  why='Tests never ask for more than what is there and never query the end while a read is in flight.',
  files=['src/mg/core/bitstream.h', 'src/mg/core/file.h'], mech=[('end detection and exception', 'src/mg/core/bitstream.h'), ('storage eof', 'src/mg/core/file.h')],
  builds=['bits'], tech=BITS_TECH, assume=BITS_ASSUME, rule='distinct operation traces with their results are counted', bounds='depth 3-4 on contents of 0..12 bytes, buffers 4..9 bytes',
  design='rd_body with an operation set biased to the end: every read that crosses the end must throw and every one that does not must succeed.')
P['C04'] = u(title='Repositioning a stream lands exactly on the requested offset',
  statement='After moving a reader or writer to any offset (forwards, backwards, inside or outside what is buffered, beyond the end), the next operation acts on exactly that offset, and the reported position is that offset. Going back to patch earlier bytes leaves every other byte unchanged.',
  over=['inputs', 'programs'], text='every sequence of reads/writes and repositionings up to the depth bound x offsets x buffer sizes',
  why='The tests seek once to one place; off-by-a-buffer faults need a seek after a partial read or an unflushed write.',
  files=['src/mg/core/bitstream.h', 'src/mg/core/file.h'], mech=[('set_position', 'src/mg/core/bitstream.h')],
  builds=['bits'], tech=BITS_TECH, assume=BITS_ASSUME, rule='distinct operation traces with their results are counted', bounds='depth 4 with every offset 0..length+2, buffers 4..9',
  design='rd_body/wr_body with seek-heavy operation sets; patching writer histories compared with the bit vector.')
P['C05'] = u(title='Copying a stream transfers exactly the requested range and is complete on return',
  statement='Copying one storage into another moves exactly the bytes of the requested range (to the end of the source when no end is given), in order, whatever the chunk size and whichever threads serve source and destination. When the copy returns every byte has arrived, nothing of the copy is still running, and nothing it used is touched afterwards.',
  over=['schedules', 'inputs', 'configurations'], text='all schedules up to the deviation bound x lengths, chunk sizes, ranges x same or different loops',
  why='The test copies one file once; the use of the copy state after its destruction needs one particular preemption of the loop thread.',
  files=['src/mg/core/bitstream.cpp', 'src/mg/core/file.h', 'src/mg/core/file.cpp'], mech=[('window of outstanding chunks and final wait', 'src/mg/core/bitstream.cpp')],
  builds=['conc2'], tech=VS_TECH, assume=VS_ASSUME + ['no file operation fails during a copy (an error leaves the copy waiting for ever, see DESIGN.md)'], rule='distinct final copies are counted',
  bounds='sources of 0..14 bytes, chunks 1..7, ranges inside, at and over the end; D=1..2 (2..3 thorough)',
  design='copies() in `harness/conc2.cpp`: file to file on one or two loops, memory to file, two copies in a row; destination compared when the copy returns; any later access to the copy state is a dead-stack or freed-memory report.')
P['C06'] = u(title='Asynchronous reads are delivered once, in order, with the right bytes',
  statement='Each asynchronous read delivers exactly the bytes at the position it was asked for, exactly once, to its own handler, and the handlers of one file run in the order the operations were asked even when they complete in any other order, however late the handler is attached. Position, size and end-of-file of the file object follow the requests.',
  over=['schedules', 'histories'], text='all completion orders and all schedules up to the deviation bound, for 2..5 outstanding operations, chained and repositioned reads',
  why='libuv on a quiet machine completes in order; only a controlled scheduler produces the other orders.',
  files=['src/mg/core/file.cpp', 'src/mg/core/file.h', 'src/mg/promises.h'], mech=[('sequence numbers and reorder list', 'src/mg/core/file.cpp')],
  builds=['conc2'], tech=VS_TECH, assume=VS_ASSUME, rule='distinct delivery logs are counted', bounds='2..5 reads, all 5! orders, handlers attached at once or late, loop running or started later; D=1..3 (3..4 thorough)',
  design='reads() in `harness/conc2.cpp`.')
P['C07'] = u(title='Everything written to an asynchronous file is in the file when close returns',
  statement='After a sequence of asynchronous writes and a close, the file contains exactly the bytes written at the positions they were written, whatever order the operations complete in, even though the caller reuses its memory immediately, and every write handler has run exactly once with the full count. Destroying the file object without closing has the same effect.',
  over=['schedules', 'histories'], text='all completion orders and schedules up to the deviation bound x 1..4 writes, gaps, overlapping objects, bit streams over asynchronous files',
  why='A lost or misplaced write needs close to race with the last completion, which the tests cannot force.',
  files=['src/mg/core/file.cpp', 'src/mg/core/file.h', 'src/mg/core/uvbase.cpp'], mech=[('outstanding/served counters and close', 'src/mg/core/file.cpp')],
  builds=['conc2'], tech=VS_TECH, assume=VS_ASSUME, rule='distinct final file sizes/logs are counted', bounds='1..4 writes with and without handlers, positioned writes, two files on one loop, bit stream over loop with 2..8 byte buffers; D=1..3',
  design='writes() in `harness/conc2.cpp`.')
P['C08'] = u(title='A failing file operation is reported once, to its owner, and harms nothing else',
  statement='When one file operation fails, or a handler throws, exactly that operation\'s error handler learns the real error code, once; an error nobody handles ends the loop and is reported once when the loop is ended. Every other operation is still delivered as far as the loop lives, and closing the file always returns, with no handler running afterwards and no descriptor left open.',
  over=['fault_sequences', 'schedules'], text='every choice of the failing operation x kind of error handling x all schedules up to the deviation bound',
  why='Tests do not inject I/O errors.',
  files=['src/mg/core/file.cpp', 'src/mg/core/uvbase.h', 'src/mg/core/uvbase.cpp', 'src/mg/promises.h'], mech=[('error branch of the file call back', 'src/mg/core/file.cpp'), ('exception transport of the loop thread', 'src/mg/core/uvbase.h')],
  builds=['conc2'], tech=VS_TECH + '; every single-fault position', assume=VS_ASSUME + ['one fault per execution, the error code is EIO or ENOENT'], rule='distinct delivery logs are counted', bounds='1..3 reads or writes, four handler behaviours, attached before or while the operation may complete; D=1..3',
  design='errors() in `harness/conc2.cpp`.')
P['C09'] = u(title='A promise delivers its value or error exactly once, however it is wired',
  statement='A value or error produced before or after its handlers are attached reaches each handler exactly once; an exception of the value handler goes to the error handler; forwarding passes values, and errors only when the handler asks for it. This holds when producer and consumer are different threads.',
  over=['schedules', 'histories'], text='every order of the consumer\'s and producer\'s calls, every interleaving of producer and consumer threads up to the deviation bound',
  why='The early/late race has a window of a few instructions.',
  files=['src/mg/promises.h'], mech=[('stored value and error under the lock', 'src/mg/promises.h')],
  builds=['conc1'], tech=VS_TECH, assume=VS_ASSUME, rule='distinct delivery logs are counted', bounds='all 5! call orders; 2..3 threads, D=4..5 (5..6 thorough)',
  design='promises() in `harness/conc1.cpp`.')
P['C11'] = u(title='Shared handles used by several threads destroy their object exactly once',
  statement='When handles to one object are copied, assigned and dropped concurrently by several threads, the object stays alive while any handle exists and is destroyed exactly once when the last one goes, running its cleanup once.',
  over=['schedules'], text='all interleavings up to the deviation bound of 2..3 threads copying, assigning, moving and dropping handles',
  why='Reference count races need a preemption between the load and the store of the counter.',
  files=['src/mg/cresource.h'], mech=[('reference counter', 'src/mg/cresource.h')],
  builds=['conc1'], tech=VS_TECH, assume=VS_ASSUME, rule='distinct logs are counted', bounds='2..3 threads, up to 3 handle operations each; D=4..5',
  design='shared() in `harness/conc1.cpp`; freed memory is tracked by the arena allocator.')
P['C12'] = u(title='A signal wakes its waiters: never lost, never invented',
  statement='A waiter returns successfully only after a signal that was not yet reset; a signal given before or during a wait always releases every waiter; a timed wait fails only after its time has passed with no signal, however often it is woken or contended. The event may be destroyed as soon as its last waiter has returned.',
  over=['schedules'], text='all interleavings, timeouts and spurious wakeups up to the deviation bound of 2..4 threads',
  why='Lost wakeups and early timeouts depend on the schedule.',
  files=['src/mg/core/thread.cpp', 'src/mg/core/thread.h'], mech=[('predicate loop under the lock', 'src/mg/core/thread.cpp')],
  builds=['conc1'], tech=VS_TECH + ', with spurious wakeups', assume=VS_ASSUME, rule='distinct results are counted', bounds='2..4 threads, waits of up to 2^32-1 ms; D=4..6',
  design='signals() in `harness/conc1.cpp`.')
P['C13'] = u(title='Locks exclude, recurse and release; threads start, stop and join cleanly',
  statement='At most one thread is inside a lock, its owner may enter again and must leave as often, trying never blocks and never enters a held lock, and leaving a scope by exception releases. A thread object runs its body once, tells it to stop, reports its end only after the body returned, and join returns once it did; an object that never started can be destroyed.',
  over=['schedules'], text='all interleavings up to the deviation bound of 2..3 threads',
  why='Mutual exclusion is a statement about all schedules.',
  files=['src/mg/core/thread.cpp', 'src/mg/core/thread.h'], mech=[('recursive mutex', 'src/mg/core/thread.cpp'), ('start/stop/join', 'src/mg/core/thread.cpp')],
  builds=['conc1'], tech=VS_TECH, assume=VS_ASSUME, rule='distinct results are counted', bounds='2..3 threads; D=4..5',
  design='locks() in `harness/conc1.cpp`.')
P['C14'] = u(title='A loop thread completes all posted work before it ends, and hands on exceptions',
  statement='Every operation posted to a loop thread before or after it starts is completed, on the loop\'s thread, before ending the loop returns; ending it always terminates; an exception of a completion reaches the owner exactly once. Loop and requests are used by one thread at a time.',
  over=['schedules'], text='all interleavings and timeouts up to the deviation bound of the posting thread(s), the stopping thread and the loop thread',
  why='Work lost between the last poll and the stop needs one preemption in a window of a few instructions.',
  files=['src/mg/core/uvbase.cpp', 'src/mg/core/uvbase.h'], mech=[('run loop and final drain', 'src/mg/core/uvbase.cpp'), ('loop lock', 'src/mg/core/uvbase.h')],
  builds=['conc1'], tech=VS_TECH, assume=VS_ASSUME, rule='distinct completion logs are counted', bounds='1..2 loop threads, up to 3 operations; D=3..5',
  design='loops_() in `harness/conc1.cpp`.')
