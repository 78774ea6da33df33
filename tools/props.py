import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S='src/shr.c'; B='lib/bw.c'; U='lib/ux.c'; T='util/shr-tool.c'
p('C01','Messages are read back whole, unaltered, once, and in write order',
 "On a ring without drop or farm mode, whatever mix of single and batched writes and reads is made, each accepted message is returned by exactly one read, byte for byte and with its length, and messages are returned in the order they were written. This holds for every ring size and message limit, wherever a message lies in the ring (including one split across the end of the ring, one that fills it, and rings of gigabytes), and after any number of laps.",
 ['inputs','histories','configurations'],"every sequence of write/writev/read/readv calls, message lengths and contents, ring byte size and message limit",
 "The tests use a handful of fixed sizes and scripted sequences with printable data; they reach few combinations of offset, slot and wrap position.",
 [S],[('message vector + wrap-around copy','src/shr.c:shr_writev'),('next_msg_info / shr_readv','src/shr.c:shr_readv')],
 [('i,u,m,mp,r,e','positions and counts of the ring','src/shr.c:shr_ctrl')],['shr_write','shr_writev','shr_read','shr_readv'])
p('C02','Concurrent processes see one first-in first-out queue',
 "When several processes write to and read from one ring (not in drop or farm mode) at the same time, every call takes effect atomically at some moment between its start and its return, as on one bounded FIFO queue. So each accepted message is read exactly once by exactly one reader, messages of a batched write stay adjacent, order agrees with real time, and a non-blocking call reports 'empty' or 'full' only if that was so at some moment during the call.",
 ['schedules','histories'],"all interleavings of any number of writer and reader processes, blocking or not, single or batched",
 "Tests step their processes with one-second sleeps, so two calls hardly ever overlap; no test checks a concurrent history.",
 [S,B],[('POSIX record lock around each operation','src/shr.c:lock'),('check and update under one lock hold','src/shr.c:shr_readv, shr_writev')],(),['call and return of each API call in each process'])
p('C03','Writes are all-or-nothing, admitted exactly when they fit',
 "On a ring without drop mode a write or batched write is accepted in full (returning its total length) exactly when the ring's free bytes and free message places both suffice; otherwise a non-blocking call returns 0 and a blocking call waits, and nothing in the ring changes. A write that could never fit (more bytes or messages than the ring's total capacity, no messages, or any empty message) returns -1 and changes nothing. Unread data is never overwritten.",
 ['inputs','histories','configurations'],"every fill level, position in the ring, message limit, batch shape and write mode",
 "Tests try a few sizes at a few fill levels; the exact admission boundary in bytes and in messages, at each wrap position, is not sampled, nor are empty elements within a batch.",
 [S],[('free space tests','src/shr.c:shr_writev'),('argument validation','src/shr.c:shr_writev')],(),['shr_write/shr_writev return values','shr_stat','later reads'])
p('C04','A batched read returns the longest run of whole messages that fits',
 "A read returns as many whole unread messages, from the oldest on, as fit both the caller's buffer and the caller's iovec array; each filled iovec entry points at its message, packed in order in the buffer, the count is reported back, and the return value is the sum of their lengths. Nothing outside the used part of the buffer and iovec array is written. If the first message does not fit, the read returns -2, reports zero messages, and consumes nothing; an empty ring gives 0 in non-blocking mode.",
 ['inputs','histories','configurations'],"every combination of pending messages, buffer length, iovec count, ring position, and ring mode",
 "Tests read with fixed generous buffers; the boundary cases of buffer and iovec exhaustion at wrap positions are not sampled, and nobody checks bytes beyond the end.",
 [S],[('shr_readv copy loop','src/shr.c:shr_readv')],(),['shr_read','shr_readv'])
p('C05','Drop mode never refuses a write, and drops only the oldest as needed',
 "On a drop mode ring (not farm) a write that fits the ring's total capacity always succeeds at once, in blocking and non-blocking mode. To make room it discards the oldest unread messages, whole, and no more of them than the bytes and message places needed; the remaining messages are read intact and in order, and the counts of dropped messages and bytes rise by exactly what was discarded.",
 ['inputs','histories','configurations','schedules'],"every history of writes and reads on a drop ring, any sizes and limits, one or several processes",
 "Tests drop in a few fixed patterns; exact minimality, accounting and intactness at every wrap offset and slot offset are not sampled, nor with concurrent readers.",
 [S],[('drop_unread','src/shr.c:drop_unread'),('advance of the eldest message','src/shr.c:shr_writev')],
 [('stat.md, stat.bd','dropped counts','src/shr.c')],['reads','shr_stat'])
p('C06','Each farm reader independently sees every message, misses are counted',
 "On a farm ring writes always succeed, and each reader, from the oldest message present when it opened the ring, is given every message in write order, intact, regardless of other readers; only messages that writers displaced before that reader got to them are skipped. The displaced messages are the oldest and no more than needed. A reader's farm miss count grows by exactly the number of messages skipped, and can be reset.",
 ['inputs','histories','configurations','schedules'],"any number of farm readers opening at any time and reading at any pace, any writer history, sizes and limits",
 "Tests use two or three scripted readers and a handful of messages; miss accounting across laps and concurrent readers is not sampled.",
 [S],[('sequence numbers','src/shr.c:next_msg_info'),('shr_farm_stat','src/shr.c:shr_farm_stat')],[('q','next sequence number of a reader','src/shr.c:struct shr'),('md','messages missed','src/shr.c:struct shr')],['shr_read','shr_readv','shr_farm_stat'])
p('C07','Blocked readers and writers are always woken',
 "A process blocked reading an empty ring returns soon after another process has written a message that it can have, and a process blocked writing (or in a blocking flush) returns soon after readers have freed the space it needs. No interleaving of readers and writers, of processes opening and closing the ring, or of waiting processes that have died, leaves a process blocked for good while what it waits for is available.",
 ['schedules','histories'],"all interleavings of blocking calls with writes, reads, opens, closes and deaths of peers; bounded progress: within 20 seconds of the resource being available and the other processes being idle",
 "Each test has one or two scripted processes with a second between steps: races between going to sleep and being woken do not arise.",
 [S,B],[('bw_wake to every waiter under the lock','lib/bw.c:bw_wake'),('bw_wait_ul after unlock','src/shr.c:shr_readv, shr_writev'),('bw_sync','lib/bw.c:bw_sync')],(),['return of blocking calls'])
p('C08','The selectable descriptor is readable whenever unread data is there',
 "Whenever messages that a non-blocking reader can read are in the ring and no call is in progress, its selectable descriptor polls readable: from the moment it opens, after writes by any process, and after it has read only a part. Once a read by that reader has returned the last such message, or found none, the descriptor no longer polls readable until more is written. A spurious wakeup makes the read return 0 without blocking.",
 ['histories','schedules'],"all histories of several readers and writers, consuming or farm, including bursts of writes that overrun the wakeup queue",
 "Tests poll at a few scripted points with one or two readers.",
 [S,B],[('bw_force after each read','src/shr.c:shr_readv'),('initial readability','src/shr.c:open_blockwake'),('drain_msgs','lib/bw.c:drain_msgs')],(),['poll on shr_get_selectable_fd'])
p('C09','Buffered writing loses, repeats and reorders nothing',
 "With buffered mode, messages accepted by a write appear in the ring exactly once, whole and in the order written, no later than the next flush that returns success, a close with room in the ring, or a write that does not fit the buffer. A flush that finds too little room in non-blocking mode returns 0 and keeps everything for a later flush; a blocking flush waits for room. A write that is refused (0 or -1) is not in the buffer, and the reported buffer usage matches what is held.",
 ['inputs','histories','configurations'],"every sequence of buffered writes, batches, flushes, reads and close, every ring and message size",
 "Tests cover a few fixed sequences; the boundaries of the buffer in bytes and entries, with a full ring and interleaved reads, are not sampled.",
 [S],[('cache in shr_writev','src/shr.c:shr_writev'),('shr_flush, shr_close','src/shr.c:shr_flush')],[('cn, cm, cb','buffer size and usage','src/shr.h:shr_stat')],['shr_write','shr_flush','shr_stat','reads'])
p('C10','Ring statistics are exact and conserved',
 "At any quiet moment the counters are exact: since the last reset, written, read and dropped messages and bytes are what the successful calls amounted to, and the unread messages and bytes are what is in the ring; so on a ring that is not a farm, written minus read minus dropped accounts for the change in unread. A reset zeroes the period's counters, sets the period start to the given time, returns the values up to it, and affects neither ring content nor capacity figures.",
 ['histories','schedules','configurations'],"all histories of reads, writes, drops, resets and failed calls, by one process or several at once",
 "Tests print a few counters after fixed sequences; conservation under concurrency and after failed or partial calls is not checked.",
 [S],[('stat updates under the lock','src/shr.c:shr_readv, shr_writev, drop_unread, shr_stat')],[('stat','I/O counters','src/shr.c:shr_ctrl')],['shr_stat'])
p('C11','Application data is stored exactly, apart from the messages',
 "The application data given at creation, or by the last successful set, is what every later get in any process returns, whatever messages pass through the ring, and setting it never disturbs messages. Concurrent gets and sets are atomic: no get returns a mixture. A set of another length than at creation, a get into too small a buffer, or use on a ring without application data fails with -1 and changes nothing; a get never writes beyond the data's length nor depends on how much larger the buffer is.",
 ['inputs','histories','schedules'],"all data lengths and alignments, ring sizes, interleavings with messages and with other processes' gets and sets",
 "Tests store one short string; concurrency, other buffer sizes, and interference with full rings are not exercised.",
 [S],[('shr_appdata under lock','src/shr.c:shr_appdata'),('region after the message vector','src/shr.c:shr_init')],(),['shr_appdata'])
p('C12','Creating a ring gives exactly the ring asked for, or nothing',
 "After a successful creation the file is an empty ring with the byte size, message limit (if given), mode flags and application data asked for, which its owner may read and write and no one else may write, within the process's umask. With keep-exist an existing file is left untouched; otherwise it is replaced by a fresh ring, without disturbing processes that have the old one open. Creation with invalid flags, zero size, or sizes that cannot be represented or allotted fails with -1, and leaves no partially made file behind; invalid flags, a zero size, and sizes whose sum overflows leave an existing file alone.",
 ['inputs','configurations'],"all sizes, flag combinations, trailing arguments and prior states of the path",
 "Tests create rings with a few sizes and flags only.",
 [S],[('shr_init','src/shr.c:shr_init')],(),['shr_init','shr_open','shr_stat','shr_appdata','the file'])
p('C13','Opening anything but a sound ring fails cleanly',
 "Opening succeeds only with exactly one of read and write mode and no creation flags, and only on a file that is large enough for the areas its header announces, has the ring signature, and has positions within their bounds; a file longer than needed (as a file system that rounds sizes up makes it) is as good. In every other case (missing, empty, truncated or foreign file; damaged signature, counters or positions; a file the user may neither read nor write) it returns NULL without crashing, without changing the file, and without keeping any lock, descriptor or mapping.",
 ['inputs'],"every truncation length of a ring file, every file content, every damage to signature, used-bytes, input position, output slot and size fields, every flag word, every owner and mode of file and directory",
 "Tests never open a damaged file.",
 [S],[('validate_ring','src/shr.c:validate_ring'),('validate_flags','src/shr.c:validate_flags')],(),['shr_open','the file bytes'])
p('C14','A killed process damages neither the ring nor accepted messages',
 "If a process is killed at any point of an operation, the ring remains usable at once by others: the lock is free, it opens, and later reads and writes behave as specified. The messages accepted earlier and not consumed are read intact and in order (on a drop or farm ring, less those the interrupted write displaced), and the interrupted write appears either entirely or not at all; an interrupted read consumes only messages that read would have returned.",
 ['crash_points','histories'],"a kill before each instruction of a write, batched write, read, batched read, stat, app-data or flush call that leaves a distinct ring image, over varied ring fill levels, positions and modes",
 "No test kills a process within an operation.",
 [S],[('fcntl lock released by process death','src/shr.c:lock'),('positions updated after the copy','src/shr.c:shr_writev')],(),['ring image at the kill','later API calls on it'])
p('C15','64 waiters of each kind, and dead waiters are reclaimed',
 "Up to 64 readers and, on a ring without drop mode, 64 blocking writers can have a ring open at a time, and all of them are woken; one more open fails with NULL and disturbs no one. A place is free again when its holder closes or dies, however it dies (including one not yet reaped by its parent, and one whose process id is in use again), and dead waiters never make another process's open, read or write fail.",
 ['histories','fault_sequences'],"all orders of opens, closes and kills of up to and beyond 64 waiters of each kind, with other sockets on the system",
 "One or two tests open several readers; none kills waiters or exhausts the places.",
 [B,U,S],[('bw_reserve','lib/bw.c:bw_reserve'),('prune_handle','lib/bw.c:prune_handle'),('has_pid_socket','lib/ux.c:has_pid_socket')],[('wr[]','waiter places','lib/bw.h:bw_handle')],['shr_open','wakeups'])
p('C16','Closing and failing release every resource',
 "After a handle is closed the process has the same open descriptors, memory mappings and heap as before it was opened, and the ring's waiter place is free again. The same holds after an open or a creation that failed, for whatever reason and at whatever step, and no number of reads, writes, flushes, or queries adds to any of them without bound.",
 ['histories','fault_sequences'],"all histories of opens, closes and operations in all modes, and a failure of any one system call or allocation during open",
 "No test counts descriptors, mappings or memory.",
 [S,B,U],[('shr_close, bw_close and error paths','src/shr.c:shr_close'),],(),['/proc/self/fd','/proc/self/maps','allocator'])
p('C17','A failing system call or allocation is reported and harms nothing',
 "If a system call or allocation fails while the library executes a call (lock, socket, connect, send, wait, map, truncate, out of memory or descriptors), the call either still has its full specified effect and result, or returns its error value with no message written, consumed or lost (a drop or farm ring's write may have discarded old messages). It does not crash, holds no lock afterwards, and the same handle and the ring work normally once the failure has passed.",
 ['fault_sequences','histories'],"each single failure (and each run of failures of one kind) at each library call into the system, in each API call",
 "No test injects a failure.",
 [S,B,U],[('goto done error paths','src/shr.c, lib/bw.c'),('wakeup before commit','src/shr.c:shr_writev')],(),['return values','ring content afterwards'])
p('C18','A blocked call ends with -3 when the caller descriptor is ready',
 "After a descriptor has been given with the poll control, a blocking read or write that would have to wait returns -3 soon after that descriptor becomes readable, with nothing read or written and the handle still usable; the descriptor is not consumed. If the call need not wait, it completes normally even though the descriptor is readable. A signal handler interrupting a blocked call makes it return -1 at most, with nothing lost, and every later call works.",
 ['histories','schedules'],"all timings of the descriptor and of signals relative to data and space becoming available; reads and writes, single, batched and buffered",
 "One or two tests use a descriptor at one timing.",
 [S,B],[('BW_POLLFD','lib/bw.c:bw_ctl'),('bw_wait_ul','lib/bw.c:bw_wait_ul')],(),['return values of blocking calls'])
p('C19','The ring changes only under its lock; calls neither leak nor sleep on it',
 "A process modifies the shared ring only while it holds the exclusive POSIX lock on the ring file, through any API call in any mode, from opening to closing. No call returns, with success or failure, with that lock still held, and a call that blocks for data or space does not hold it while it waits.",
 ['histories','inputs','fault_sequences'],"every API call in every mode and outcome, including calls that fail or block",
 "No test looks at the lock; a missing lock rarely shows in a scripted sequence.",
 [S],[('lock / unlock','src/shr.c:lock')],(),['writes to the mapped ring','fcntl locks'],None)
p('C20','On a sync ring every completed operation is on the backing store',
 "On a ring created with the sync flag, when a read, write, flush, statistics or application data call returns, every byte of the ring file that the call changed has been covered by a successful synchronous msync after its last change, while the lock was still held. A write whose msync fails returns -1. On rings without the flag no msync is made.",
 ['histories','configurations','fault_sequences'],"all operations and sizes, also combined with drop, farm, app-data and buffered mode",
 "Tests cannot see what is on the backing store.",
 [S],[('shr_sync at the end of each operation','src/shr.c:shr_sync')],(),['msync calls compared with the ring image at return'])
p('C21','No memory error or undefined behaviour on any API use',
 "For every sequence of API calls with valid handles and buffers, in any mode, the library does not read or write outside the ring file, the caller's buffers and its own allocations, does not use freed or uninitialized memory, executes no undefined behaviour, and never aborts on an internal assertion.",
 ['inputs','histories','configurations'],"all call sequences, argument values, ring geometries and modes",
 "The tests are built without instrumentation, and most errors of this kind do not change what they print.",
 [S,B,U],[('bounds arithmetic','src/shr.c')],(),['sanitizer reports'])
p('C22','shr-tool write, writehex and writefile put in what read and readhex give',
 "Each line of standard input without its newline (write), the bytes denoted by a hex argument (writehex), and the content of a file (writefile) become exactly one message; read prints pending messages' bytes exactly and in order, and readhex a hex and ASCII dump of exactly those bytes, stopping when the ring is exhausted, or after the given number of messages with none beyond them consumed. Anything that is not an even number of hex digits is rejected with nothing written; so is a message larger than the ring. A failure to write the output ends the tool with an error.",
 ['inputs','histories'],"all message contents (binary, long lines), counts, limits and output failures, for messages of up to 1000000 bytes",
 "No test runs shr-tool.",
 [T],[('unhex, hexdump, handle_io','util/shr-tool.c')],(),['stdout, exit status, ring content'])
p('C23','Published frames arrive at a subscriber ring exactly, in order',
 "Messages of up to 1000000 bytes read from a published ring go over the connection each preceded by its 32-bit length in host byte order (or, with prefixes off, bare), and a subscriber writes to its ring exactly those messages, whole and in order, however the byte stream is split into segments and however small its ring is, provided each message fits. Malformed input makes the subscriber stop without crashing and without writing a message not in the stream. A publisher outlives its clients: after one disconnects or resets, another can connect and gets the messages not yet sent.",
 ['inputs','schedules','fault_sequences'],"all message sizes, segmentations and timings of the stream, malformed streams, and client disconnects",
 "No test runs shr-tool.",
 [T],[('decode_frames','util/shr-tool.c:decode_frames'),('handle_io pub mode','util/shr-tool.c:handle_io')],(),['TCP stream','subscriber ring content'])
p('C24','shr-tool tee copies every message to both rings',
 "Every message read from the source ring by tee is written to both destination rings, unaltered and in order, also when a destination is full and must be waited for, and messages written to the source while tee runs follow. Messages not yet copied stay in the source ring.",
 ['inputs','histories','schedules'],"all message sizes and rates, destination ring sizes and paces of their readers",
 "No test runs shr-tool.",
 [T],[('handle_io tee mode','util/shr-tool.c:handle_io')],(),['content of the three rings'])
p('C25','shr-tool create and status agree with the options and the ring',
 "create makes each named ring with the given size (with its k, m, g or t suffix), message limit, mode letters and app-data file, keeping or replacing existing files as told, and exits nonzero if it could not. status prints the ring's true counters, capacities, attributes and app-data length, writes the exact app-data to a file if asked, and changes nothing in the ring.",
 ['inputs','configurations'],"all option combinations and ring states",
 "No test runs shr-tool.",
 [T],[('option parsing, mode_create, mode_status','util/shr-tool.c:main')],(),['status output compared with shr_stat'])
p('C26','shr-tool mount never stacks a RAM disk on a RAM disk',
 "mount issues exactly one mount of the requested file system type and size limit on an existing directory, makes just the requested subdirectories in it, sets the number of huge pages if asked to once all that is done, and exits nonzero if any of this fails; if the directory is already a mount point of a tmpfs, ramfs or hugetlbfs it mounts nothing. Querying mounts and unmounts nothing and tells RAM disks from others; unmounting issues exactly one unmount of the directory.",
 ['inputs','configurations'],"all combinations of directory kind, underlying file system, mount point or not, and options",
 "No test runs shr-tool, and mounting needs privileges.",
 [T],[('suitable_mountpoint, query_ramdisk','util/shr-tool.c')],(),['mount, umount and mkdir calls made','the number of huge pages written'])
p('C27','The block/wake library wakes all waiters, keeps and clears wakeups',
 "A wake reaches every process that has the handle open for waiting at that moment: its descriptor becomes readable, and a blocking wait returns, also if the wake came before the wait began. Forcing ready makes the descriptor readable, and forcing clear makes it unreadable, whatever number of wakeups is pending. A wake with no waiters succeeds, and waiters that closed or died never make a wake or an open fail.",
 ['histories','schedules'],"all sequences of opens, wakes, waits, forces and closes by up to 64 waiters and any number of wakers",
 "The tests reach the library only through a few scripted ring operations; its own tool has no test.",
 [B,U],[('bw_sync, wake_one','lib/bw.c'),('bw_force','lib/bw.c:bw_force')],(),['poll on the descriptor','bw_wait_ul'])
p('C28','A ring outlives its users: closing, reopening and copying lose nothing',
 "The unread messages, statistics, application data and geometry of a ring persist when processes close it, exit, or are all gone, and a process that opens it later, or opens a byte-for-byte copy of the file under another name, carries on as if it had been there throughout. Opening and closing a handle, in any mode, consumes, adds and changes no message.",
 ['histories','configurations'],"all histories cut by closing, reopening, process exit and copying at any point, in all ring modes",
 "Tests reopen at one or two points of fixed sequences.",
 [S],[('all state in the mapped file, offsets only','src/shr.c:shr_ctrl')],(),['API results after reopening'])
p('C29','Opening while a ring is being created or replaced is all-or-nothing',
 "A process that opens a path while others create, replace or use rings there gets either a NULL return or a handle on one completely initialized ring, never a partly initialized one, and the handle keeps working on that ring even if the path is replaced meanwhile. Creating with keep-exist on an existing ring never disturbs the processes using it.",
 ['schedules'],"all interleavings of creators, keep-exist creators, openers, readers and writers on one path",
 "Tests create rings before any other process starts.",
 [S],[('O_EXCL creation and lock during initialization','src/shr.c:shr_init'),('validation under the lock','src/shr.c:shr_open')],(),['shr_open results','app data and geometry of the opened ring'])
p('C30','Rings to be locked in memory are resident and locked while open',
 "While a process has a ring open that was created with the lock-in-memory flag, all of the process's mapping of that ring is resident and locked in memory, from the return of the open, in any mode and whatever else it does; rings without the flag are not locked. If the process may not lock so much, the open returns NULL and leaves nothing behind. After the last close nothing remains locked.",
 ['histories','configurations','fault_sequences'],"all histories of opens, operations and closes, ring sizes and modes, and limits on locked memory",
 "No test looks at what is locked.",
 [S],[('mlock at open','src/shr.c:shr_open')],(),['/proc/self/smaps','/proc/self/status'])
p('C31','bw-tool waits until a wake or signal, and says which',
 "Processes that run bw-tool wait on a file made by bw-tool make sleep, up to 64 of them, until one bw-tool wake ends them all with status 0, whichever way they wait, also if the wake comes in the delay before a wait. Each names the process that woke it, and reports its descriptor clear afterwards, or ready if it was forced ready. HUP, TERM, INT, QUIT and ALRM end a wait with an error that names the signal; other signals do not end it. A further waiter, and a missing or empty file, are refused with an error. A wake succeeds also with no waiters or ones that died.",
 ['histories','schedules'],"all mixes and orders of waiters, wakes, signals, deaths and options",
 "No test runs bw-tool.",
 ['lib/bw-tool.c',B],[('await_readiness, main','lib/bw-tool.c:main'),('trace_senders','lib/bw.c:trace_senders')],(),['exit status, stdout and stderr'])
p('C32','Waiting costs nothing, and buffered writes take no lock',
 "A process that waits, in a blocking read, write or flush or by polling its descriptor, uses no processor time and does not try for the ring's lock while nothing happens on the ring: it looks again only after calls that moved messages (a bounded number of times for each), and not after calls that move none, such as empty reads, writes that do not fit, and stat. A polling reader finds nothing only so often. A buffered write that fits in the buffer does not try for the ring's lock, and returns even while another process holds it. shr-tool and bw-tool use no processor time while they wait for messages, clients, peers or room.",
 ['histories','schedules'],"all histories of moves, waits, wakeups that pile up, stops and calls without effect, in any mix of waiters",
 "A waiter that spins or wakes for nothing gives right results; tests do not look at what waiting costs.",
 [S,B,'util/shr-tool.c'],[('bw_wait_ul, bw_ready_ul','lib/bw.c:bw_wait_ul'),('drained readiness','lib/bw.c:bw_force'),('write to the buffer','src/shr.c:shr_writev')],(),['processor time (schedstat)','lock attempts','results of non-blocking reads'])
p('C33','Rings in one process are independent, also in several threads',
 "A process may use any number of rings at once, each ring with any number of handles, and from any thread as long as no two threads are in calls on the same ring at the same time. Calls on one ring do not wait for, disturb or race with calls on another, whether these succeed, fail or block, and all guarantees hold for each ring as if it were the only one. A handle works the same in whatever thread it is used, also after the thread that opened it has ended.",
 ['schedules','histories','configurations'],"all divisions of rings among threads, histories on each, and interleavings of them",
 "Every test uses one ring in one thread per process; state shared between handles by mistake does not show there.",
 [S,B,U],[('state kept in handles only','src/shr.c:struct shr'),('places are held by the process','lib/bw.c:bw_reserve'),('examination of waiters','lib/ux.c:has_pid_socket')],(),['results of calls','races seen by ThreadSanitizer'])
p('C34','What a call costs depends on what it moves, not on what the ring holds',
 "The processor instructions and system calls that a call on an open handle takes grow at most in proportion to the messages and bytes that this call moves, drops or displaces. For the same messages moved they do not depend on the size of the ring, on how many messages it has room for or holds, read or unread, on where in the ring the call works, on how much has passed through the ring before, nor on how many messages a farm reader has missed: a read, write, flush, stat, farm stat or access to the application data costs as much on a full ring of a million messages as on one of a hundred.",
 ['configurations','histories','inputs'],"all ring sizes, fills, positions, histories and batch sizes",
 "A call that goes through the whole ring gives right results; tests use small rings and do not look at cost.",
 [S,B],[('positions kept as indices','src/shr.c:next_msg_info'),('drop and displacement loops','src/shr.c:drop_unread'),('read and write','src/shr.c:shr_writev')],(),['instructions and system calls of each call'])
p('C35','A ring has all its storage from its creation',
 "When shr_init succeeds, all storage that the ring takes is allocated: messages up to its capacity in bytes and in number, application data, and waiters can use every part of the ring at any later time, after any history of use, however full the file system gets meanwhile; no call on the ring ends the process with a bus error. When the file system has not enough room, shr_init fails, without a signal, and leaves neither a file nor storage in use; a ring that fits is not refused. Signals that arrive meanwhile do not keep shr_init from ending.",
 ['inputs','configurations','fault_sequences','histories'],"all sizes and kinds of rings, all amounts of free space before and after, all histories of use",
 "Tests run where there is plenty of room; the lack of storage shows only once the file system is full.",
 [S],[('the ring file is sized and allocated','src/shr.c:shr_init')],(),['results of shr_init and later calls','signals','free space'])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
