"""What each property's check runs."""
import json, os, sys, traceback
import vlib
from concurrent.futures import ThreadPoolExecutor
from vlib import Check, Harness

CHECKS = {}


def check(pid, **kw):
    def deco(f):
        CHECKS[pid] = dict(run=f, **kw)
        return f
    return deco


MODEL_RULE = ("each case: a random ring (size, message limit, modes), a random history of API calls on up to 7 handles with "
              "sizes at the boundaries of free space, wrap position and buffer; every result is compared with a sequential model. "
              "Non-trivial: distinct (geometry, position, fill, request) states reached by writes and reads")
TECH_MODEL = "runtime monitoring: online differential monitor (sequential model of the ring in lockstep with random API histories)"
NOTE_MODEL = ("Held on the executions made: hundreds of thousands of calls in states chosen at the boundaries, judged by an exact "
              "sequential model. Trusts the model in harness/model.cc, the kernel, and that a case's seed covers what matters.")
MODEL_ASSUME = ["single-threaded histories; the operating system's file locks, mappings and sockets work"]


def model(pid, quick, thorough, extra=None, level="exploration", ev=None, di=None, rule=MODEL_RULE, assume=MODEL_ASSUME,
          asan=0, min_eval=1000, technique=None, note=None):
    def run(c):
        n = thorough if c.thorough else quick
        c.run_driver("model", "model", n)
        if asan and not c.violations:
            c.run_driver("model-asan", "model", max(8, n // asan), variant="asan", start=10 ** 9, slow=4)
        if extra and not c.violations:
            extra(c)
        return c.finish(level, rule, ev or [r"model(-asan)?\.(reads|writes)"],
                        di or [r"model(-asan)?\.(write_states|read_states)"], assume, min_eval)
    CHECKS[pid] = dict(run=run, level=level, technique=technique or TECH_MODEL, note=note or NOTE_MODEL)


def openfaults(c):
    c.run_driver("openfault", "model", 600 if c.thorough else 70, mode="openfault", chunk=5)


def conc(n, thorough, **kw):
    """a stage of concurrent histories"""
    def run(c):
        c.run_driver("conc", "conc", thorough if c.thorough else n, chunk=max(5, n // 32), slow=2, **kw)
        if not c.violations:
            c.run_driver("large", "conc", (thorough if c.thorough else n) // 8, chunk=5, slow=2, mode="large", start=10 ** 8)
    return run


def stages(*fs):
    def run(c):
        for f in fs:
            if not c.violations:
                f(c)
    return run


def big(mode, thorough):
    """a stage of rings of over 4 GiB; a case takes 10 GiB of memory"""
    return lambda c: c.run_driver("big" + mode, "big", thorough if c.thorough else 1, mode=mode, chunk=1, jobs=1, slow=2)


def wkf(n, thorough):
    """a stage of failures in one process while others poll and sleep"""
    return lambda c: c.run_driver("wkf", "wkf", thorough if c.thorough else n, chunk=max(5, n // 48), slow=2)


def sig(n, thorough, mode):
    """a stage of calls interrupted by signals and ended by descriptors"""
    def run(c):
        c.run_driver("sig" + mode, "sig", thorough if c.thorough else n, mode=mode, chunk=max(5, n // 48), slow=2)
    return run


CONC_EV = [r"(conc|large)\.(calls|blocked_states_right|farm_wakes_seen)"]
CONC_DI = [r"(conc|large)\.(interleavings|blocked_states)"]
CONC_RULE = ("each case: 2 to 6 processes with random roles (blocking, non-blocking, polling, buffered; opening and closing; "
             "stopped, continued or killed at random moments) on a random ring, delays injected at the library's system calls and "
             "copies. A controller judges every state in which all sleep; at the end a search for a valid order of the whole history. "
             "Non-trivial: distinct lock orders of the calls, and distinct states of all sleeping")
CONC_ASSUME = ["interleavings are sampled (injected delays, stops), not enumerated",
               "a process whose context switch count stands still over three samples in state S is asleep"]


def concurrent(pid, quick, thorough, technique, note, extra=None, beside=None):
    def run(c):
        with ThreadPoolExecutor(1) as ex:
            f = ex.submit(beside, c) if beside else None
            conc(quick, thorough)(c)
            if extra and not c.violations:
                extra(c)
            if f:
                f.result()
        return c.finish("exploration", CONC_RULE, CONC_EV, CONC_DI, CONC_ASSUME, 1000)
    CHECKS[pid] = dict(run=run, level="exploration", technique=technique, note=note)


concurrent("C02", 4000, 100000,
           "runtime monitoring: recorded histories of concurrent processes under injected delays, linearizability checker",
           "Held on thousands of recorded multi-process histories, each explained by a sequential order found by search.")
concurrent("C07", 4500, 100000,
           "runtime monitoring: concurrent processes under injected delays, stops and kills; a controller judges each state in which all sleep",
           "Held in tens of thousands of states in which every process slept: none slept while what it waited for was there. "
           "A wakeup that is merely late (under 3 s) is not told from a punctual one.",
           beside=lambda c: c.run_driver("long", "longwait", 2 if c.thorough else 1, chunk=1, slow=40 if c.thorough else 4))
model("C01", 16000, 400000, extra=big("plain", 40))
model("C03", 20000, 500000)
model("C04", 20000, 500000)
model("C05", 20000, 500000, extra=stages(conc(1600, 40000), big("drop", 20)))
model("C06", 20000, 500000, extra=stages(conc(1600, 40000), big("farm", 20)))
model("C08", 20000, 500000, extra=conc(1600, 40000), ev=[r"model\.poll_checks"])
model("C09", 20000, 500000, extra=stages(conc(1600, 40000), sig(400, 10000, "buffered")), ev=[r"model\.writes"], di=[r"model\.(write_states|flush_shapes)"])
model("C10", 20000, 500000, extra=conc(1600, 40000), ev=[r"model\.stat_checks"])
model("C11", 16000, 400000, extra=conc(1200, 30000), ev=[r"model\.appdata_calls"])
model("C16", 6000, 100000, extra=openfaults, ev=[r"model\.(resource_checks|churn_checks)", r"openfault\.(open|init)_faults"],
      di=[r"model\.geometries", r"openfault\.open_fault_sites"])
model("C17", 16000, 300000, extra=stages(openfaults, sig(200, 5000, "buffered"), wkf(5000, 150000)),
      ev=[r"model\.faults", r"openfault\.\w+_faults", r"wkf\.faults"],
      di=[r"model\.fault_sites", r"openfault\.open_fault_sites", r"wkf\.(fault_sites|blocked)"], level="fault_enumeration")
model("C19", 12000, 200000, extra=conc(800, 20000), ev=[r"(model|conc)\.lock_probes"])
model("C20", 16000, 200000, ev=[r"model\.sync_checks"],
      extra=lambda c: c.run_driver("eio", "model", 20000 if c.thorough else 2000, mode="eio"))
model("C21", 6000, 100000, asan=2)
model("C28", 8000, 100000)


def crash(c):
    q = not c.thorough
    for stage, mode, n in (("images", "", 2400 if q else 60000), ("large", "large", 96 if q else 4000), ("initimages", "init", 600 if q else 6000),
                           ("kill", "kill", 1200 if q else 30000), ("blocked", "blocked", 1200 if q else 30000)):
        c.run_driver(stage, "crash", n, mode=mode, chunk=max(3 if mode == "large" else 5, n // 48), slow=2)
        if c.violations:
            return
    torn = sum(v for k, v in c.counts.items() if k.endswith(".torn_commit_states"))
    if torn:  # known (see DESIGN.md): listed, or else a violation
        c.violation("torn-commit", "torn commit: %d states" % torn, dict(kind="driver", stage="images", name="crash", variant="plain",
                    dflags=None, mode="", wrap=[], slow=1, env={}, prop=c.prop, case=0, check=c.prop, seed=c.seed, tier=c.tier))


@check("C14", level="fault_enumeration",
       technique="runtime monitoring: single-stepped calls, every file image a kill could leave taken up and judged by a model; real kills beside users and blocked processes",
       note="For each call made, every state of the file that a kill at any instruction leaves is judged; calls and ring states are sampled. "
            "Stores reordered by the processor are not a matter here: the kernel keeps a killed process's stores.")
def c14(c):
    crash(c)
    return c.finish("fault_enumeration",
                    "each case: a random ring in a random state, one API call executed instruction by instruction; every distinct image of the "
                    "ring file seen after an instruction is put in a file and used through the API twice with random further calls, which must "
                    "agree with a state allowed after a kill (old content less what the call may have consumed or displaced, with or without "
                    "the whole write). kill: the caller kills itself at a chosen change or instruction while another process holds the ring "
                    "open; blocked: while another sleeps in a blocking call. Non-trivial: distinct (call, change) images and kill points",
                    [r"(images|initimages)\.images", r"kill\.kills", r"blocked\.blocked_kills"],
                    [r"(images|initimages)\.images", r"(kill|blocked)\.kills"],
                    ["the images of one call are complete at instruction granularity; calls and states are sampled",
                     "a kill leaves all stores made before it in the shared mapping"], 1000)


LIFE_EV = [r"life\.(opens|wakes_seen|blocked_woken|reads|writes)"]
LIFE_DI = [r"life\.(fill|waketests|blocktests)"]


@check("C15", level="exploration",
       technique="runtime monitoring: waiters in up to 70 processes opened, closed and killed in random histories; a controller that knows the places judges every result and wakeup",
       note="Histories are sampled. A process id in use again, and a socket name in use again, are brought about by stand-ins for getpid and bind. "
            "A dead waiter that the opener cannot examine (its process id is another user's process, or an unreaped one) keeps its place if its socket name is in use again.")
def c15(c):
    c.run_driver("life", "life", 4000 if c.thorough else 200, chunk=5, slow=3)
    return c.finish("exploration",
                    "each case: 2 to 72 processes of one or two users open, close, die (killed or exiting, reaped or not, or with the id in use "
                    "again), read, write and block, on a ring with room for 64 waiters of each kind, while other sockets come and go; places, "
                    "results, readability after each write and the return of all blocked calls are compared with what the controller knows. "
                    "Non-trivial: distinct (kind, live, dead) fills at an open, and distinct (woken, dead) sets at a wakeup",
                    LIFE_EV, LIFE_DI, ["stand-ins for getpid and bind act as the system would"], 1000)


@check("C18", level="exploration",
       technique="runtime monitoring: calls blocked in other processes, ended by descriptors, signals, data and space at chosen moments; an exact model judges each result and the state left",
       note="Moments of signals and descriptors are sampled: before a call, while it sleeps, while it waits for the lock, together with data. "
            "That a call ends 'soon' is judged with a limit of 12 s.")
def c18(c):
    q = not c.thorough
    sig(1600 if q else 40000, 40000, "")(c)
    if not c.violations:
        sig(500 if q else 20000, 20000, "buffered")(c)
    return c.finish("exploration",
                    "each case: up to 6 processes with handles of every mode on a random ring, descriptors given by the poll control in some. "
                    "The controller starts calls, makes descriptors readable or not, sends signals (single and storms), holds the ring's lock, "
                    "and writes and reads; each return value, the counters and the order of the messages are compared with a model. "
                    "Non-trivial: distinct states of sleeping calls and distinct endings",
                    [r"sig\w*\.(calls_judged|minus3|minus1|signals)"], [r"sig\w*\.(asleep|ends)"],
                    ["moments are sampled"], 1000)


@check("C12", level="exploration",
       technique="runtime monitoring: random creations judged by an oracle for what the flags, sizes and prior file ask for, with handles open on what is replaced",
       note="Creations are sampled at the boundaries of sizes and flags. A ring file that is lost because its replacement fails late (no space) is not judged: "
            "the statement promises an untouched file only for flags and sizes that are refused at once.")
def c12(c):
    c.run_driver("init", "opn", 600000 if c.thorough else 60000, mode="init", chunk=300)
    if not c.violations:
        c.run_driver("init-asan", "opn", 60000 if c.thorough else 4000, mode="init", variant="asan", start=10 ** 9, slow=4)
    return c.finish("exploration",
                    "each case: a path with a random history of creations (all flag words, sizes at the boundaries, app-data, limits), over prior "
                    "rings, foreign files, links and directories, while handles on the replaced rings go on; the file, its statistics, its "
                    "app-data and its capacity are compared with what was asked for. Non-trivial: distinct (flags, size, prior state, outcome)",
                    [r"init(-asan)?\.inits"], [r"init(-asan)?\.inits"], ["the file system is tmpfs"], 1000)


@check("C13", level="exploration",
       technique="runtime monitoring: opens of damaged ring files under an oracle (which damage must be refused) and AddressSanitizer, with leak and change monitors",
       note="Where the library keeps each field is found by comparing files with what is known of their rings; a field not found in a case is not damaged in it. "
            "Contents of message slots are not validated by an open, and are not claimed.")
def c13(c):
    c.run_driver("fuzz", "opn", 300000 if c.thorough else 12000, mode="fuzz", chunk=100)
    if not c.violations:
        c.run_driver("fuzz-asan", "opn", 20000 if c.thorough else 1500, mode="fuzz", variant="asan", start=10 ** 9, slow=4, chunk=30)
    if not c.violations:
        c.run_driver("perm", "opn", 60000 if c.thorough else 3000, mode="perm", chunk=100)
    return c.finish("exploration",
                    "each case: a ring in a random state, its file damaged in one way at a time (every field to values at and beyond its bounds, "
                    "signature bits, sizes that wrap around, truncations, foreign content, random words) and opened with valid and invalid flags; "
                    "opening must fail where the damage is decisive, and a failed open must leave file, lock, descriptors and mappings alone. "
                    "Stage perm: an unprivileged user opens or creates over files and in directories of all modes and owners. "
                    "Non-trivial: distinct damages",
                    [r"fuzz(-asan)?\.opens", r"perm\.perm_(done|refused)"], [r"fuzz(-asan)?\.damages", r"perm\.perms"], ["single process"], 1000)


@check("C29", level="exploration",
       technique="runtime monitoring: creators, keep-exist creators, openers and users racing on a path under injected delays and kills; every opened ring is checked against its creator's seal",
       note="Interleavings are sampled: delays are injected at the library's system calls. Every intermediate file of a creation that dies is judged by C14's stage of initial images.")
def c29(c):
    c.run_driver("race", "opn", 30000 if c.thorough else 1200, mode="race", chunk=10, slow=2)
    if not c.violations:
        c.run_driver("initimages", "crash", 3000 if c.thorough else 200, mode="init", chunk=5, slow=2)
    return c.finish("exploration",
                    "each case: 2 to 6 processes that create, create with keep-exist, open, use and close rings on one path, with delays and kills; "
                    "the app-data of each ring holds its size, limit, flags and a checksum, compared with what an opener sees; what is written to a "
                    "handle comes back on it though the path is replaced. Non-trivial: distinct mixes of creators and openers that met",
                    [r"race\.(opens|creations|keeps|uses)", r"initimages\.images"], [r"race\.mixes", r"initimages\.images"],
                    ["interleavings are sampled"], 1000)


@check("C27", level="exploration",
       technique="runtime monitoring: the block/wake library by itself, random histories in many processes, a controller that knows the bounds of each waiter's pending wakeups",
       note="Calls on one handle are made one at a time, as its users' lock has them. Waits are concurrent with everything.")
def c27(c):
    c.run_driver("bwlib", "bwlib", 6000 if c.thorough else 160, chunk=3, slow=2)
    return c.finish("exploration",
                    "each case: up to 30 processes open up to 3 handles for waiting (up to 64 each) and waking, wake once or thousands of times, "
                    "wait, force ready or clear, give descriptors, close and die; readability of every waiter is compared with bounds of its "
                    "pending wakeups after each call. Non-trivial: distinct (pending, waiters, dead) states",
                    [r"bwlib\.(readability_checks|wakes_seen|forces)"], [r"bwlib\.(states|forces|fills)"],
                    ["calls on a handle are serialized by its users"], 1000)


def tool(pid, quick, thorough, asan, rule, ev, di, technique, note, assume=()):
    def run(c):
        import toolchecks
        k = thorough / quick if c.thorough else 1
        toolchecks.stage(c, "tool", pid, int(quick * k))
        if asan and not c.violations:
            toolchecks.stage(c, "tool-asan", pid, int(asan * k), variant="asan")
        return c.finish("exploration", rule, ev, di, ["rings are filled, emptied and inspected through the library under test",
                        "what should happen within a minute and does not (twice) counts as not happening"] + list(assume), 200)
    CHECKS[pid] = dict(run=run, level="exploration", technique=technique, note=note)


tool("C22", 6000, 150000, 1000,
     "each case: one command of shr-tool with random input (binary lines, long lines, hex digits good and bad, files, counts), on a ring in a "
     "random position, alone or with a reader or writer at work, its output whole, cut short by the system, or failing; the ring's content and "
     "the output are compared byte for byte with what the input says. Non-trivial: distinct (command, options, sizes, output condition)",
     [r"tool(-asan)?\.judgements"], [r"tool(-asan)?\.\w+"],
     "runtime monitoring: the real tool under random inputs and output faults; an oracle over its output and ring content",
     "Inputs are sampled. Empty input lines are left out: the library has no empty message.")
tool("C23", 500, 15000, 100,
     "each case: a publisher with clients that read slowly, send junk, disconnect, reset and come back; or a subscriber fed a stream cut into "
     "random segments, well-formed or malformed, with rings down to one message; or both connected. The stream and the rings are compared "
     "with the messages written. Non-trivial: distinct (prefix, clients, sizes, segmentation, malformation)",
     [r"tool(-asan)?\.(judgements|frames)"], [r"tool(-asan)?\.\w+"],
     "runtime monitoring: publisher and subscriber over loopback with hostile peers; an exactly-once in-order checker over stream and rings",
     "Segmentation, timing and malformations are sampled. What was sent to a client before the publisher noticed that it is gone may be lost.")
tool("C24", 1200, 30000, 200,
     "each case: tee from a ring to two rings, down to the size of one message, with writer and readers at random paces; killed, or given a "
     "message too big for a destination, in some. Each destination's messages are compared with those written, in order, and what is left in "
     "the source with what was not copied. Non-trivial: distinct (count, sizes, paces, end)",
     [r"tool(-asan)?\.(judgements|messages)"], [r"tool(-asan)?\.\w+"],
     "runtime monitoring: the real tool between paced writers and readers; an online checker of the three rings' contents",
     "Paces are sampled. A tee that is killed may lose the message in hand.")
tool("C25", 30000, 600000, 5000,
     "each case: create with random options over random prior files, judged by the rings' statistics, flags, app-data and prior content; or "
     "status of a ring in a random state, judged by the library's statistics before and after. Sizes in g and t are judged by what the library "
     "is asked for. Non-trivial: distinct (options, prior file, failure) and ring states",
     [r"tool(-asan)?\.judgements"], [r"tool(-asan)?\.\w+"],
     "runtime monitoring: the real tool under random option lists; differential oracle through the library",
     "Options are sampled.")
tool("C26", 50000, 600000, 0,
     "each case: mount with random options on a directory, link, file or nothing, whose file system, device and mount results are made up by "
     "stand-ins for stat, statfs, mount and umount; the calls recorded, the directories made, the exit status and the text are judged. "
     "Non-trivial: distinct (command, kind, file system, mount point, failure, subdirectories)",
     [r"tool\.judgements"], [r"tool\.\w+"],
     "runtime monitoring: the real tool over recording stand-ins for the mount calls; an oracle over the calls recorded",
     "The stand-ins act as the kernel would; no real mount is made. The option that sets the number of huge pages is never used.")
tool("C31", 800, 30000, 200,
     "each case: a file made by bw-tool, processes that wait on it in either way with random options (also 70 at once), wakes, signals that end "
     "a wait and that do not, kills, a second make; or a wake during a waiter's or waker's delay, an alarm, a bad file. Status and text of each "
     "process are judged. Non-trivial: distinct (way of waiting, final state, event), crowds and signals",
     [r"tool(-asan)?\.judgements"], [r"tool(-asan)?\.\w+"],
     "runtime monitoring: the real tool in many processes under random wakes and signals; an oracle over their ends and reports",
     "Timing is sampled. A process that holds its place and sleeps over five samples counts as waiting.")


@check("C30", level="exploration",
       technique="runtime monitoring: the kernel's account of the process's mappings compared with the flags of the rings after every call; opens under small limits",
       note="What the kernel reports in smaps and status is taken for what is locked.")
def c30(c):
    c.run_driver("memlk", "memlk", 80000 if c.thorough else 4000, chunk=50 if not c.thorough else 500, slow=2)
    return c.finish("exploration",
                    "each case: up to three rings, with and without the flag, in random modes and sizes; opens, closes, reads and writes in all modes; after each "
                    "the mappings, what of them is locked and resident, and the total are compared with the handles open; in some, a process whose "
                    "limit is around the ring's size opens it. Non-trivial: distinct (rings, handles, bytes locked) and limits",
                    [r"memlk\.(checks|limited_opened|limited_refused)"], [r"memlk\.(states|limits)"],
                    ["at least 128 kB may be locked"], 200)


@check("C32", level="exploration",
       technique="runtime monitoring: lock attempts and processor time of waiting processes against what happened on the ring, under random histories of moves, stops and idle calls",
       note="What is seen is bounded by generous limits: a waiter may try the lock about twice for each call that moved messages. "
            "Processor time is the kernel's account, and counts if a tenth of it is used over 0.4 s in which nothing happens.")
def c32(c):
    c.run_driver("idle", "idle", 60000 if c.thorough else 1600, chunk=20, slow=2, jobs=12)
    if not c.violations:
        import toolchecks
        toolchecks.stage(c, "tool", "C32", 12000 if c.thorough else 400)
    return c.finish("exploration",
                    "each case: 1 to 5 processes that block in reads, writes, buffered writes and flushes, or poll and read, on a random ring, with quotas of "
                    "calls; a controller moves messages, makes calls that move none, stops and continues processes, opens and closes, holds the lock; "
                    "in windows without events the waiters' lock attempts, empty reads and processor time are looked at. Non-trivial: distinct windows",
                    [r"idle\.(sum_checks|waiting_windows|buffered_fits)", r"tool\.rests"], [r"idle\.waiting_windows", r"tool\.rests"],
                    ["windows of 8 to 400 ms"], 1000)


@check("C33", level="exploration",
       technique="runtime monitoring: several rings in several threads of one process, each against a sequential model; ThreadSanitizer on the library",
       note="Threads' schedules are sampled. ThreadSanitizer sees races of the accesses made, also when they did no harm.")
def c33(c):
    c.run_driver("thr", "thr", 50000 if c.thorough else 1600, chunk=20, slow=2)
    if not c.violations:
        d = vlib.driver("thr", "tsan")
        a = dict(exe=d, prop="C33", mode="", slow=4, wrap=[], env={})
        if c._exec(a, 0, 0)[0] == 0:
            c.run_driver("tsan", "thr", 12000 if c.thorough else 320, variant="tsan", chunk=8, slow=6, start=10 ** 9)
        else:
            c.count("tsan.does_not_run_here")
    return c.finish("exploration",
                    "each case: 2 to 8 rings of random kinds used by 2 to 6 threads in 2 to 5 rounds, after each of which the threads end and new ones take the "
                    "handles over in another division; reads, writes, batches, flushes, statistics, application data, opens, closes, creations, polls compared with a "
                    "model for each ring; calls blocked till other processes end them, some only after all other threads have finished. "
                    "Non-trivial: distinct (ring, fill, request) states written in",
                    [r"(thr|tsan)\.(reads|writes|blocked\w+)"], [r"(thr|tsan)\.write_states"],
                    ["a ring is used by one thread at a time"], 1000)


@check("C34", level="exploration",
       technique="runtime monitoring: calls run one instruction at a time; instructions and system calls counted and compared between rings that differ in size, fill and history",
       note="A call on the large ring may take up to twice the instructions of the same call on the small one, and 4000 more; with 16 times the messages up to 32 times as many.")
def c34(c):
    c.run_driver("slope", "cost", 20000 if c.thorough else 320, mode="slope", chunk=10, slow=2)
    c.run_driver("cost", "cost", 30000 if c.thorough else 800, chunk=10, slow=2)
    if not c.violations:
        c.run_driver("far", "cost", 10000 if c.thorough else 240, mode="far", chunk=10, slow=2)
    return c.finish("exploration",
                    "each case: two rings of one random kind, the other up to 3000 times as large, both empty, half full or full, the large one at other positions "
                    "or passed through before, with readers up to date or far behind; 8 to 24 random calls with the same arguments on both. Or one call with k and "
                    "with 16 k messages or bytes. Non-trivial: distinct (case, call, count)",
                    [r"(cost|far|slope)\.(pairs|slopes)"], [r"(cost|far|slope)\.pairs"],
                    ["opening, closing and creating are not judged"], 1000)


@check("C35", level="exploration",
       technique="runtime monitoring: rings made on file systems of limited size, used in full once the rest of the file system is used up; bus errors and refusals judged",
       note="In a mount namespace of the check's own; where there is none, the storage of each file is compared with its size instead.")
def c35(c):
    c.run_driver("alloc", "alloc", 60000 if c.thorough else 1600, chunk=20, slow=2)
    if not c.violations:
        c.run_driver("blocks", "alloc", 10000 if c.thorough else 400, mode="blocks", chunk=20, slow=2)
    return c.finish("exploration",
                    "each case: a tmpfs of 40 kB to 12 MB with some of it in use, a ring of random kind whose size is near the free space, divided at random among data, "
                    "message slots and application data; if made, it is used in full, up to three times, mostly with the rest of the file system used up in between; if "
                    "refused, it must not have fit, and leaves no file and no storage. Non-trivial: distinct (kind, size, free space)",
                    [r"(alloc|blocks)\.(inits|uses)"], [r"(alloc|blocks)\.(inits|used)"],
                    ["file systems that can allocate storage ahead"], 1000)


def main(argv):
    if argv and argv[0] == "--setup":
        try:
            for v in ("plain", "asan", "tsan"):
                vlib.build(v)
        except Harness as e:
            print(e)
            return 2
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
        argv.remove("--thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    c = None
    try:
        c = Check(argv[0], tier, seed)
        return CHECKS[argv[0]]["run"](c)
    except Harness as e:
        print("check %s could not be carried out: %s" % (argv[0], e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if c:
            import shutil
            shutil.rmtree(c.dir, ignore_errors=True)


def replay(path):
    rp = json.load(open(path))
    if rp.get("kind") != "driver":
        print(json.dumps(rp, indent=1))
        import toolchecks
        return toolchecks.replay(rp)
    c = Check(rp["check"], rp["tier"], rp["seed"])
    a = dict(rp, exe=vlib.driver(rp["name"], rp["variant"], rp["dflags"]))
    rc, res, cas, what, err, so, to = c._exec(a, rp["case"], rp["case"] + 1, trace=1)
    print(so)
    print(err[-3000:])
    print("exit status", rc)
    import shutil
    shutil.rmtree(c.dir, ignore_errors=True)
    return 0 if rc == 0 else 1
