"""Monitors for shr-tool: the real tool under random inputs, its rings judged through the library."""
import ctypes, json, os, random, re, resource, select, shutil, signal, socket, stat as st, struct, subprocess, sys, tempfile, time
import traceback
import vlib

KEEP, DROP, APP, FARM, MAXM, SYNC, MLOCK = (1 << i for i in range(7))
RD, WR, NB = 1 << 13, 1 << 14, 1 << 15
BUFLEN = 1000000
LIMIT = 60  # seconds after which what should happen counts as not happening


class Fail(Exception):
    def __init__(self, key, detail):
        Exception.__init__(self, detail)
        self.key, self.detail = key, detail


class Hang(Fail):
    pass


class Stat(ctypes.Structure):
    _fields_ = [("sec", ctypes.c_long), ("usec", ctypes.c_long)] + [(n, ctypes.c_size_t) for n in
               "bw br mw mr md bd bn bu mu mm cn cm cb".split()] + [("flags", ctypes.c_uint)]

    def all(self):
        return {f[0]: getattr(self, f[0]) for f in self._fields_}


class Lib:
    """the library under test, through ctypes; all handles are non-blocking"""
    def __init__(self, path):
        L = self.L = ctypes.CDLL(path)
        L.shr_open.restype = ctypes.c_void_p
        L.shr_open.argtypes = [ctypes.c_char_p, ctypes.c_uint]
        for f in ("shr_read", "shr_write"):
            getattr(L, f).restype = ctypes.c_ssize_t
            getattr(L, f).argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
        L.shr_close.argtypes = [ctypes.c_void_p]
        L.shr_stat.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        L.shr_appdata.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        self.buf = ctypes.create_string_buffer(4 << 20)
        self.libc = ctypes.CDLL(None)
        self.libc.free.argtypes = [ctypes.c_void_p]

    def init(self, path, size, flags=0, app=None, maxm=None):
        a = []
        if app is not None:
            flags |= APP
            a += [ctypes.c_char_p(app), ctypes.c_size_t(len(app))]
        if maxm is not None:
            flags |= MAXM
            a += [ctypes.c_size_t(maxm)]
        return self.L.shr_init(ctypes.c_char_p(path.encode()), ctypes.c_size_t(size), ctypes.c_uint(flags), *a)

    def open(self, path, flags):
        h = self.L.shr_open(path.encode(), flags | NB)
        if not h:
            raise Fail("open", "the library cannot open %s (it should be a ring)" % os.path.basename(path))
        return h

    def write(self, h, b):
        return self.L.shr_write(h, b, len(b))

    def read(self, h):
        n = self.L.shr_read(h, self.buf, len(self.buf))
        if n < 0:
            raise Fail("lib_read", "shr_read returned %d" % n)
        return self.buf.raw[:n] if n < 65536 else ctypes.string_at(self.buf, n)

    def drain(self, path):
        h = self.open(path, RD)
        out = []
        while True:
            m = self.read(h)
            if not m:
                break
            out.append(m)
        self.L.shr_close(h)
        return out

    def fill(self, path, msgs):
        h = self.open(path, WR)
        for m in msgs:
            n = self.write(h, m)
            if n != len(m):
                raise Fail("lib_write", "shr_write returned %d for %d bytes" % (n, len(m)))
        self.L.shr_close(h)

    def stat(self, path):
        h = self.open(path, RD)
        s = Stat()
        if self.L.shr_stat(h, ctypes.byref(s), None) < 0:
            raise Fail("lib_stat", "shr_stat failed")
        self.L.shr_close(h)
        return s.all()

    def app(self, path):
        h = self.open(path, RD)
        p, n = ctypes.c_void_p(), ctypes.c_size_t(0)
        r = self.L.shr_appdata(h, ctypes.byref(p), None, ctypes.byref(n))
        out = None
        if r == 0 and p.value:
            out = ctypes.string_at(p.value, n.value)
            self.libc.free(p.value)
        self.L.shr_close(h)
        return out

    def close(self, h):
        self.L.shr_close(h)


class Case:
    def __init__(self, spec, lib, i, w, base, trace=False):
        self.spec, self.lib, self.i, self.w, self.trace = spec, lib, i, w, trace
        self.r = random.Random("%s/%s/%s" % (spec["seed"], spec["stage"], i))
        self.dir = tempfile.mkdtemp(prefix="case.", dir=base)
        self.counts, self.distinct, self.ops, self.procs = {}, {}, [], []
        self.env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0", UBSAN_OPTIONS="exitcode=77:print_stacktrace=1")
        self.fork = 0

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def seen(self, k, v):
        self.distinct.setdefault(k, set()).add(str(v))

    def op(self, s):
        if len(self.ops) < 200:
            self.ops.append(s[:300])
        if self.trace:
            print("op:", s[:2000])

    def path(self, n):
        return os.path.join(self.dir, n)

    def tool(self):
        return os.path.join(self.spec["build"], "util", "shr-tool")

    def start(self, args, stdin=None, stdout=subprocess.PIPE, pre=None, env=None, cwd=None, prog=None):
        self.op(("bw-tool " if prog else "shr-tool ") + " ".join(a if len(a) < 60 else a[:60] + "..." for a in args))
        e = dict(self.env, **(env or {}))
        if env and self.spec["variant"] != "asan":
            e["LD_PRELOAD"] = self.spec["pre"]
        ef = open(self.path("stderr.%d" % len(self.procs)), "w+b")
        if stdin is None and random.Random("%s/%s/%s/%d" % (self.spec["seed"], self.spec["stage"], self.i, len(self.procs))).random() < 0.1:
            pre0 = pre

            def pre():  # so that descriptor 0 is the first that the tool opens
                if pre0:
                    pre0()
                os.close(0)
            self.count("without_stdin")
        # a limit to stop what is left behind: the tool blocks most signals
        p = subprocess.Popen([prog or self.tool()] + args, stdin=stdin if stdin is not None else subprocess.DEVNULL, stdout=stdout, stderr=ef,
                             env=e, preexec_fn=pre, cwd=cwd or self.dir)
        p.ef = ef
        p.args_ = args
        self.procs.append(p)
        self.count("tool_runs")
        return p

    def ended(self, p, rc):
        if rc < 0 and rc != -signal.SIGKILL:
            p.ef.seek(0)
            raise Fail("crash", "shr-tool %s was ended by signal %d; %s" % (p.args_[:1], -rc, p.ef.read()[-300:].decode(errors="replace")))
        if rc == 77:
            p.ef.seek(0)
            raise Fail("sanitizer", "shr-tool %s: %s" % (p.args_[:1], p.ef.read()[:1500].decode(errors="replace")))
        return rc

    def finish(self, p, inp=None, timeout=LIMIT):
        try:
            out, _ = p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Hang("hang", "shr-tool %s did not end within %d s" % (p.args_[:1], timeout))
        rc = self.ended(p, p.returncode)
        self.op("-> %d, %d bytes out" % (rc, len(out or b"")))
        return rc, out

    def run(self, args, inp=None, **kw):
        p = self.start(args, stdin=subprocess.PIPE if inp is not None else None, **kw)
        return self.finish(p, inp)

    def need(self, cond, key, detail):
        self.count("judgements")
        if not cond:
            raise Fail(key, detail)

    def alive(self, p):
        rc = p.poll()
        if rc is not None:
            self.ended(p, rc)
            p.ef.seek(0)
            raise Fail("ended", "shr-tool %s ended by itself, status %d: %s" % (p.args_[:1], rc, p.ef.read()[-200:].decode(errors="replace")))

    def stop(self, p):
        p.kill()
        p.wait()

    def close(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()
            if p.stdout:
                p.stdout.close()
            p.ef.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- random things
    def blob(self, n, no=b""):
        r = self.r
        if n > 4096:
            b = r.randbytes(64) * (n // 64) + r.randbytes(n % 64)
            b = bytearray(b)
            for _ in range(20):
                b[r.randrange(n)] = r.randrange(256)
            # number the pages, so that shifted content shows
            for k in range(0, n - 8, 4096):
                b[k:k + 4] = struct.pack("<I", k)
            b = bytes(b)
        elif r.random() < 0.3:
            b = bytes(r.choice(b"ab \t\r01") for _ in range(n))
        else:
            b = r.randbytes(n)
        for c in no:
            b = b.replace(bytes([c]), b"x")
        return b

    def size(self, big=True):
        r = self.r
        k = r.random()
        if big and k < 0.04:
            return r.choice([999999, 1000000, 524288, 300000, 65537, 65536])
        if k < 0.5:
            return r.randrange(1, 20)
        if k < 0.9:
            return r.randrange(1, 400)
        return r.randrange(1, 6000)

    def msgs(self, n, big=True, no=b""):
        return [self.blob(self.size(big), no) for _ in range(n)]


def short(ms):
    return [(len(m), m[:8].hex()) for m in ms[:6]]


def diff(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return "message %d: %d bytes %s..., expected %d bytes %s..." % (i, len(a), a[:12].hex(), len(b), b[:12].hex())
    return "%d messages, expected %d" % (len(got), len(want))


# ---------------------------------------------------------------- C22
def hexdump(b):
    out = []
    for n in range(0, len(b), 16):
        s = b[n:n + 16]
        out.append("%08x " % n + "".join("%02x " % c for c in s) + "   " * (16 - len(s)) +
                   "".join(chr(c) if 0x20 <= c <= 0x7e else "." for c in s) + " " * (16 - len(s)) + "\n")
    return "".join(out).encode()


def ringfor(t, ms, slack=None):
    """a ring in which all the messages fit"""
    p = t.path("ring")
    need = sum(map(len, ms)) or 1
    sz = need + (t.r.choice([0, 1, 100, 5000]) if slack is None else slack)
    if t.lib.init(p, sz, 0, None, max(1, len(ms)) + t.r.choice([0, 1, 50])) < 0:
        raise Fail("init", "shr_init failed")
    if t.r.random() < 0.6:  # start elsewhere than at the beginning
        for _ in range(t.r.randrange(1, 4)):
            m = t.blob(t.r.randrange(1, min(sz, 3000) + 1))
            t.lib.fill(p, [m])
            t.lib.drain(p)
    return p


def c22_write(t):
    r = t.r
    n = r.choice([1, 1, 2, 3, 8, 30, 120])
    ms = t.msgs(n, no=b"\n")
    if r.random() < 0.06:
        ms.append(t.blob(r.choice([1000001, 1500000, 2000003]), no=b"\n"))
    nl = b"" if r.random() < 0.3 else b"\n"
    inp = b"\n".join(ms) + nl
    bad = r.random()
    if bad < 0.12:  # one line that cannot fit
        p = t.path("ring")
        t.lib.init(p, sum(map(len, ms)) + 10)
        k = r.randrange(len(ms) + 1)
        lines = ms[:k] + [t.blob(sum(map(len, ms)) + 11 + r.randrange(50), no=b"\n")] + ms[k:]
        rc, _ = t.run(["write", p], b"\n".join(lines) + nl)
        t.need(rc != 0, "write_status", "write ended with 0 although a line is too long for the ring")
        got = t.lib.drain(p)
        t.need(got == ms[:k], "write_content", "write, line %d too long: %s" % (k, diff(got, ms[:k])))
        t.seen("write", "toolong %d" % min(k, 3))
        return
    if bad < 0.45 and n > 1:  # a small ring, read meanwhile
        p = t.path("ring")
        big = max(map(len, ms))
        t.lib.init(p, big + r.choice([0, 1, 7, big]), 0, None, r.choice([1, 2, 5, 1000]))
        w = t.start(["write", p], stdin=subprocess.PIPE)
        if r.random() < 0.5 and big <= BUFLEN:
            rd = t.start(["read", "-b", "-N", str(len(ms)), p], stdout=open(t.path("out"), "wb"))
            rc, _ = t.finish(w, inp)
            t.need(rc == 0, "write_status", "write ended with %d" % rc)
            t.finish(rd)
            got = open(t.path("out"), "rb").read()
            t.need(got == b"".join(ms), "pipe_content", "write to read -b -N: %d bytes, expected %d" % (len(got), sum(map(len, ms))))
            t.need(t.lib.stat(p)["mu"] == 0, "left", "messages left in the ring")
            t.seen("write", "through %d" % min(len(ms), 10))
        else:
            f = open(t.path("in"), "wb")
            f.write(inp)
            f.close()
            t.stop(w)
            t.procs.remove(w)
            if w.stdout:
                w.stdout.close()
            w.stdin.close()
            w.ef.close()
            t.lib.drain(p)
            w = t.start(["write", p], stdin=open(t.path("in"), "rb"))
            h = t.lib.open(p, RD)
            got, end = [], time.time() + LIMIT
            while time.time() < end:
                m = t.lib.read(h)
                if m:
                    got.append(m)
                elif w.poll() is not None:
                    m = t.lib.read(h)
                    if not m:
                        break
                    got.append(m)
                else:
                    time.sleep(0.001)
                if r.random() < 0.05:
                    time.sleep(0.004)
            else:
                raise Hang("hang", "write did not end while its ring was read")
            t.lib.close(h)
            rc, _ = t.finish(w)
            t.need(rc == 0, "write_status", "write ended with %d" % rc)
            t.need(got == ms, "write_content", "write: " + diff(got, ms))
            t.seen("write", "drained %d" % min(len(ms), 10))
        return
    p = ringfor(t, ms)
    rc, _ = t.run(["write", p], inp)
    t.need(rc == 0, "write_status", "write ended with %d" % rc)
    got = t.lib.drain(p)
    t.need(got == ms, "write_content", "write: " + diff(got, ms))
    t.seen("write", "lines %d %s %d" % (min(n, 10), nl == b"", max(map(len, ms)) // 200000))


def c22_hex(t):
    r = t.r
    p = t.path("ring")
    old = t.msgs(r.randrange(0, 3), False)
    t.lib.init(p, 200000, 0, None, 100)
    t.lib.fill(p, old)
    if r.random() < 0.5:
        m = t.blob(r.choice([1, 2, 3, 16, 255, 256, 60000]) if r.random() < 0.5 else t.size(False))
        if r.random() < 0.3:
            m = bytes([r.choice([0, 10, 0x7f, 0x80, 0xff])]) * len(m)
        h = "".join(c.upper() if r.random() < 0.5 else c for c in m.hex())
        rc, _ = t.run(["writehex", h, p])
        t.need(rc == 0, "hex_status", "writehex of %d digits ended with %d" % (len(h), rc))
        want = old + [m]
        t.seen("hex", "good %d" % min(len(m), 20))
    else:
        k = r.randrange(6)
        h = r.randbytes(r.randrange(1, 12)).hex()
        if k == 0:
            h = h[:-1]
        elif k == 1:
            h = ""
        elif k == 2:
            h = "0x" + h
        else:
            b = list(h)
            b[r.randrange(len(b))] = chr(r.choice([c for c in range(1, 127) if chr(c) not in "0123456789abcdefABCDEF"]))
            if r.random() < 0.3:
                b[r.randrange(len(b))] = r.choice(" +-xX\tgG@`/:")
            h = "".join(b)
        if h.startswith("-") and k != 1:
            h = "0" + h[1:] + "g"
        rc, _ = t.run(["writehex", h, p])
        t.need(rc != 0, "hex_status", "writehex of %r ended with 0" % h)
        want = old
        t.seen("hex", "bad %s" % h[:6])
    got = t.lib.drain(p)
    t.need(got == want, "hex_content", "writehex %s: %s" % (h[:40], diff(got, want)))


def c22_file(t):
    r = t.r
    f = t.path("file")
    n = r.choice([1, 2, 4095, 4096, 4097, 8192, 1000000, 1000001, 3000000]) if r.random() < 0.5 else t.size()
    m = t.blob(n)
    k = r.random()
    p = t.path("ring")
    old = t.msgs(r.randrange(0, 3), False)
    fits = not (k > 0.9 and not old and n > 1)
    t.lib.init(p, n + sum(map(len, old)) + r.choice([0, 1, 100]) if fits else n - 1, 0, None, 50)
    t.lib.fill(p, old)
    want = old
    if k < 0.1:
        rc, _ = t.run(["writefile", f, p])
        t.need(rc != 0, "file_status", "writefile of a missing file ended with 0")
    elif k < 0.2:
        open(f, "wb").close()
        rc, _ = t.run(["writefile", f, p])
        t.need(rc != 0, "file_status", "writefile of an empty file ended with 0")
    else:
        with open(f, "wb") as o:
            o.write(m)
        rc, _ = t.run(["writefile", f, p])
        t.need((rc == 0) == fits, "file_status", "writefile of %d bytes ended with %d" % (n, rc))
        if fits:
            want = old + [m]
    got = t.lib.drain(p)
    t.need(got == want, "file_content", "writefile: " + diff(got, want))
    t.seen("file", "%d %s" % (min(n, 5000) // 100, rc == 0))


def c22_read(t):
    r = t.r
    ms = t.msgs(r.choice([0, 1, 1, 2, 3, 10, 60]))
    p = ringfor(t, ms)
    t.lib.fill(p, ms)
    hx = r.random() < 0.35
    if hx:
        dump = lambda q: b"".join(hexdump(m) for m in q)
    else:
        dump = lambda q: b"".join(q)
    args = ["readhex" if hx else "read"]
    want, rest, more = ms, [], []
    block = r.random() < 0.4 and ms
    if r.random() < 0.5 or block:
        n = r.choice([1, 2, len(ms), max(1, len(ms) - 1), r.randrange(1, len(ms) + 2)]) or 1
        if block:
            n = max(1, n)
            if n > len(ms):
                more = t.msgs(n - len(ms), False)
                if sum(map(len, more)) > t.lib.stat(p)["bn"]:
                    n = len(ms)
                    more = []
        args += ["-N", str(n)]
        want, rest = ms[:n] + more, ms[n:]
    if block:
        args.append("-b")
        r.shuffle(args[1:])
    args.append(p)
    fault = r.random()
    exp = dump(want)
    if fault < 0.1 and want and not more:
        fo = open("/dev/full", "wb")
        q = t.start(args, stdout=fo)
        fo.close()
        rc, _ = t.finish(q)
        t.need(rc != 0, "full_status", "%s ended with 0 although its output failed" % args[0])
        got = t.lib.drain(p)
        t.need(got == ms[1:], "full_left", "%s with failing output took more than a message: %s" % (args[0], diff(got, ms[1:])))
        t.seen("read", "full %s %d" % (args[0], min(len(ms), 10)))
        return
    if fault < 0.25 and exp and not more:
        # the output file may not grow beyond a limit: the last write is cut, then fails
        lim = r.randrange(0, len(exp))
        fo = open(t.path("out"), "wb")

        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        q = t.start(args, stdout=fo, pre=pre)
        fo.close()
        rc, _ = t.finish(q)
        got = open(t.path("out"), "rb").read()
        t.need(rc != 0, "full_status", "%s ended with 0 although its output failed" % args[0])
        t.need(got == exp[:lim], "read_content", "%s, output limited to %d bytes: %d bytes, or wrong ones" % (args[0], lim, len(got)))
        k, tot = 0, 0
        while tot <= lim:
            tot += len(dump([ms[k]]))
            k += 1
        got = t.lib.drain(p)
        t.need(got == ms[k:], "full_left", "%s with failing output took more than the message in hand: %s" % (args[0], diff(got, ms[k:])))
        t.seen("read", "limit %s %d" % (args[0], min(len(ms), 10)))
        return
    env = {}
    if fault < 0.6:
        env = dict(TP_SHORT=str(r.randrange(1, 10 ** 6)))
    q = t.start(args, env=env)
    if more:
        h = t.lib.open(p, WR)
        end = time.time() + LIMIT
        if r.random() < 0.1:
            time.sleep(1.3)
        os.set_blocking(q.stdout.fileno(), False)
        out = b""
        todo = list(more)
        while time.time() < end:
            try:
                d = os.read(q.stdout.fileno(), 1 << 16)
                if not d:
                    break
                out += d
            except BlockingIOError:
                pass
            if todo and r.random() < 0.3:
                n = t.lib.write(h, todo[0])
                if n > 0:
                    todo.pop(0)
            time.sleep(0.002)
        else:
            raise Hang("hang", "%s -b -N did not end, though all messages were written" % args[0])
        t.lib.close(h)
        t.finish(q)
    else:
        rc, out = t.finish(q)
    if t.trace and out != exp:
        bad = [i for i in range(min(len(out), len(exp))) if exp[i] != out[i]]; print(bad[:5], bad[-5:], len(bad), [len(m) for m in want], exp[70:140].hex(), out[70:140].hex(), out[bad[0]:bad[0]+30] in exp, len(more))
    t.need(out == exp, "read_content", "%s: %d bytes out, expected %d" % (args, len(out), len(exp)) +
           ("" if len(out) != len(exp) else ", or other bytes"))
    got = t.lib.drain(p)
    t.need(got == rest, "left", "%s left: %s" % (args[:-1], diff(got, rest)))
    t.seen("read", "%s %s n%d of %d short%d more%d" % (args[0], bool(block), min(len(want), 10), min(len(ms), 10), bool(env), min(len(more), 3)))


def c22_toobig(t):
    """a message that the ring can never hold"""
    r = t.r
    p = t.path("ring")
    n = r.choice([1, 10, 100, 5000])
    t.lib.init(p, n, r.choice([0, 0, 2]), None, 100)
    old = [t.blob(1)] if n > 1 and r.random() < 0.5 else []
    t.lib.fill(p, old)
    big = t.blob(n + r.choice([1, 1, 2, n, 3 * n])).replace(b"\n", b"x")
    how = r.choice(["write", "writehex", "writefile"])
    good = []
    if how == "writehex":
        rc, _ = t.run([how, big.hex(), p])
    elif how == "writefile":
        with open(t.path("f"), "wb") as f:
            f.write(big)
        rc, _ = t.run([how, t.path("f"), p])
    else:
        room = n - sum(map(len, old))
        while room > 0 and len(good) < 4 and r.random() < 0.6:
            good.append(b"y" * r.randrange(1, room + 1))
            room -= len(good[-1])
        rc, _ = t.run([how, p], b"".join(m + b"\n" for m in good + [big]) + (b"after\n" if r.random() < 0.5 else b""))
    t.need(rc != 0, "toobig_status", "%s of %d bytes to a ring of %d ended with 0" % (how, len(big), n))
    got = t.lib.drain(p)
    t.need(got == old + good, "toobig_content", "%s of %d bytes to a ring of %d: %s" % (how, len(big), n, diff(got, old + good)))
    t.seen("toobig", "%s %d" % (how, n))


def c22(t):
    k = t.r.random()
    if t.i % 12 == 7:
        return c22_toobig(t)
    (c22_write if k < 0.3 else c22_hex if k < 0.45 else c22_file if k < 0.6 else c22_read)(t)


# ---------------------------------------------------------------- C23
def port(t):
    """a port that nobody uses now; a range for each worker"""
    for _ in range(200):
        t.spec.setdefault("ports", {})
        n = t.spec["ports"].get(t.w, os.getpid() % 97 * 11)
        t.spec["ports"][t.w] = n + 1
        q = 12000 + t.w * 2200 + n % 2200
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(("127.0.0.1", q))
            return q
        except OSError:
            continue
        finally:
            s.close()
    raise vlib.Harness("no free port")


def fds(p):
    try:
        return len(os.listdir("/proc/%d/fd" % p.pid))
    except OSError:
        return -1


def connect(t, pub, q, rcvbuf=0):
    end = time.time() + LIMIT
    while time.time() < end:
        t.alive(pub)
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        try:
            s.settimeout(20)
            s.connect(("127.0.0.1", q))
            if s.getsockname() == s.getpeername():  # connected to itself
                s.close()
                continue
            s.setblocking(False)
            return s
        except OSError:
            s.close()
            time.sleep(0.005)
    raise Hang("hang", "the publisher takes no connection")


def c23_pub(t):
    r = t.r
    p = t.path("ring")
    big = r.random() < 0.35
    size = r.choice([100, 1000, 20000]) if not big else 3000000
    t.lib.init(p, size, 0, None, r.choice([2, 10, 300]))
    prefix = r.random() < 0.75
    q = port(t)
    wh = t.lib.open(p, WR)
    sent = []     # all messages written, in order

    def message():
        n = min(t.size(big), size)
        if big and r.random() < 0.3:
            n = r.choice([1000000, 999999, 200000, 65536])
        b = t.blob(n)
        tag = struct.pack("<I", len(sent))
        return (tag + b[4:]) if n >= 4 else b

    def put(k):
        n = 0
        for _ in range(k):
            m = message()
            rc = t.lib.write(wh, m)
            if rc == 0:
                break
            if rc != len(m):
                raise Fail("lib_write", "shr_write returned %d" % rc)
            sent.append(m)
            n += 1
        return n

    for _ in range(r.randrange(0, 3)):
        put(1)
    env = dict(TP_SHORT=str(r.randrange(1, 10 ** 6))) if r.random() < 0.4 else {}
    args = ["pub"] + (["127.0.0.1:%d" % q] if r.random() < 0.7 else [str(q)]) + ([] if prefix else ["-P"]) + [p]
    pub = t.start(args, env=env, stdout=subprocess.DEVNULL)
    end = time.time() + LIMIT
    enc = (lambda m: struct.pack("=I", len(m)) + m) if prefix else (lambda m: m)
    base = None
    nclients = r.choice([1, 1, 2, 3])
    low = 0           # index of the first message that may come next
    sure = True       # whether the next client must get message `low`
    for c in range(nclients):
        last = c == nclients - 1
        if base is None:
            # listening: then the descriptors are all there
            while True:
                t.alive(pub)
                with open("/proc/net/tcp") as f:
                    if (":%04X 00000000:0000 0A" % q) in f.read():
                        break
                if time.time() > end:
                    raise Hang("hang", "pub does not listen")
                time.sleep(0.003)
            prev = -1
            while True:  # the epoll instance and all
                b = fds(pub)
                if b == prev and "Sl"[0] in open("/proc/%d/stat" % pub.pid).read().rsplit(")", 1)[1].split()[0]:
                    base = b
                    break
                prev = b
                time.sleep(0.01)
        before = t.lib.stat(p)["mu"]
        s = connect(t, pub, q, r.choice([0, 0, 2048, 8192]))
        t.count("clients")
        got = b""
        start = low
        pos = 0        # bytes of got that were matched
        idx = low      # messages matched
        first = True
        goal = len(sent) + r.randrange(1, 30)
        junk = r.random() < 0.2
        second = r.random() < 0.2
        stopat = None if last else r.randrange(0, 20)   # messages after which this client goes
        nap = r.random() < 0.3
        slow = r.random() < 0.3
        end = time.time() + LIMIT

        def match():
            nonlocal pos, idx, start, first
            while True:
                if idx >= len(sent):
                    break
                if first and not sure:
                    # some messages went to the client before: find where this one starts
                    for k in range(low, len(sent)):
                        e = enc(sent[k])
                        g = got[pos:pos + len(e)]
                        if g and len(g) == len(e) and g == e and len(sent[k]) >= 4:
                            idx = k
                            break
                    else:
                        if len(got) > 0 and max(len(enc(m)) for m in sent[low:]) <= len(got):
                            raise Fail("pub_stream", "the stream of a later client does not begin with a whole message not yet sent")
                        return
                    first = False
                e = enc(sent[idx])
                g = got[pos:pos + len(e)]
                if g != e[:len(g)]:
                    raise Fail("pub_stream", "message %d (%d bytes) is wrong in the stream: %s..., expected %s..." %
                               (idx, len(sent[idx]), g[:16].hex(), e[:16].hex()))
                if len(g) < len(e):
                    break
                pos += len(e)
                idx += 1
                first = False
                t.count("frames")

        while True:
            t.alive(pub)
            if time.time() > end:
                raise Hang("hang", "a client waits for message %d of %d" % (idx, len(sent)))
            if len(sent) < goal and r.random() < 0.5:
                put(r.randrange(1, 5))
            if nap and r.random() < 0.01:
                time.sleep(r.choice([0.02, 0.05, 1.1]) if r.random() < 0.1 else 0.01)
            if junk and r.random() < 0.1:
                try:
                    s.send(r.randbytes(r.choice([1, 99, 100, 101, 300])))
                except OSError:
                    pass
            if second and r.random() < 0.05:
                second = False
                x = socket.socket()
                x.settimeout(5)
                try:
                    x.connect(("127.0.0.1", q))
                except OSError:
                    pass
                x.close()
                t.count("second_clients")
            try:
                d = s.recv(r.choice([1, 7, 100, 5000]) if slow and len(got) < 20000 else 1 << 20)
                if not d:
                    raise Fail("pub_closed", "the publisher closed the connection at message %d of %d" % (idx, len(sent)))
                got += d
                match()
            except BlockingIOError:
                time.sleep(0.001)
            except ConnectionError as e:
                raise Fail("pub_closed", "connection to the publisher: %s" % e)
            if stopat is not None and idx - start >= stopat and r.random() < 0.2:
                break
            if idx == len(sent) and len(sent) >= goal and pos == len(got) and (last or r.random() < 0.2):
                break
        if last:
            t.need(pos == len(got), "pub_stream", "%d bytes more than the messages in the stream" % (len(got) - pos))
            time.sleep(0.01)
            try:
                d = s.recv(100)
                t.need(False, "pub_stream", "%d bytes more than the messages in the stream" % len(d))
            except BlockingIOError:
                pass
            t.seen("pub", "p%d clients%d n%d big%d short%d" % (prefix, nclients, min(idx, 50) // 5, big, bool(env)))
            s.close()
            break
        # this client goes
        how = r.choice(["close", "reset", "shut"])
        if r.random() < 0.5:
            for _ in range(10):
                put(1)
        if how == "reset":
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        if how == "shut":
            s.shutdown(socket.SHUT_WR)
        else:
            s.close()
        t.op("client %d goes (%s) after %d messages of %d" % (c, how, idx, len(sent)))
        end = time.time() + LIMIT
        while fds(pub) > base:
            t.alive(pub)
            if how == "shut":
                try:
                    if not s.recv(1 << 20):
                        pass
                except OSError:
                    pass
            if time.time() > end:
                raise Hang("hang", "pub keeps the connection of a client that is gone (%s)" % how)
            time.sleep(0.002)
        s.close()
        t.count("disconnects")
        t.alive(pub)
        low = idx
        mu = t.lib.stat(p)["mu"]
        # those still in the ring are those not yet sent
        if r.random() < 0.7:
            put(r.randrange(1, 4))
            time.sleep(r.choice([0.001, 0.02]))
            t.need(t.lib.stat(p)["mu"] == mu + 0 or True, "", "")
        n0 = t.lib.stat(p)["mu"]
        time.sleep(r.choice([0, 0.005, 0.03]))
        n1 = t.lib.stat(p)["mu"]
        t.need(n0 == n1, "pub_takes", "pub takes messages out of the ring with no client (%d, then %d)" % (n0, n1))
        t.need(len(sent) - n1 >= idx, "pub_takes", "more messages in the ring than were not received")
        low = len(sent) - n1
        sure = True
    t.lib.close(wh)
    t.alive(pub)
    t.stop(pub)
    left = t.lib.drain(p)
    t.need(left == [], "left", "%d messages left in the ring that pub read" % len(left))


class Server:
    def __init__(self, t):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(1)
        self.l.settimeout(LIMIT)
        self.port = self.l.getsockname()[1]

    def take(self, t, p):
        try:
            s, _ = self.l.accept()
        except socket.timeout:
            t.alive(p)
            raise Hang("hang", "sub does not connect")
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.l.close()
        s.setblocking(False)
        return s


def c23_sub(t):
    r = t.r
    p = t.path("ring")
    big = r.random() < 0.35
    many = r.random() < 0.15
    n = r.choice([1, 2, 5, 20, 60]) if not many else r.choice([500, 3000, 20000])
    if many:
        big = False
    ms = [t.blob(r.randrange(1, 4 if r.random() < 0.5 else 9)) for _ in range(n)] if many else t.msgs(n, big)
    if big:
        for _ in range(r.randrange(1, 4)):
            ms.insert(r.randrange(len(ms) + 1), t.blob(r.choice([1000000, 999999, 500000, 262144])))
    ms = [(struct.pack("<I", i) + m[4:]) if len(m) >= 4 else m for i, m in enumerate(ms)]
    mx = max(map(len, ms))
    size = mx + r.choice([0, 0, 1, 10, mx, 10 * mx])
    t.lib.init(p, size, 0, None, r.choice([1, 2, 3, 10, 1000]))
    stream = b"".join(struct.pack("=I", len(m)) + m for m in ms)
    bad = None
    if r.random() < 0.3:
        bad = r.choice(["overlong", "huge", "cut", "zero", "toobig", "garbage"])
        k = r.randrange(len(ms) + 1)
        a, b = ms[:k], ms[k:]
        head = b"".join(struct.pack("=I", len(m)) + m for m in a)
        tail = b"".join(struct.pack("=I", len(m)) + m for m in b)
        if bad == "overlong":
            x = struct.pack("=I", r.choice([1048577, 1048576 + r.randrange(1, 1000), 1 << 21])) + tail
        elif bad == "huge":
            x = struct.pack("=I", r.choice([0xffffffff, 0x80000000, 0x7fffffff, 0xfffffffc])) + tail
        elif bad == "cut":
            m = t.blob(r.randrange(2, 2000))
            e = struct.pack("=I", len(m)) + m
            x = e[:r.randrange(1, len(e))]
        elif bad == "zero":
            x = struct.pack("=I", 0) + tail
        elif bad == "toobig":
            e = size + 1 + r.randrange(100)
            if e > 1048576:
                bad, x = "cut", b"\1"
            else:
                x = struct.pack("=I", e) + t.blob(e) + tail
        else:
            x = b"\xff" * 3 + r.randbytes(40)
            x = x[:3] + b"\x7f" + x[4:]
        stream = head + x
        ms = a
    srv = Server(t)
    sub = t.start(["sub", "127.0.0.1:%d" % srv.port, p], stdout=subprocess.DEVNULL)
    s = srv.take(t, sub)
    rh = t.lib.open(p, RD)
    got, pos = [], 0
    style = r.choice(["all", "tiny", "random", "stopped", "frames"])
    if len(stream) > 200000 and style == "tiny":
        style = "random"
    if style == "stopped":
        os.kill(sub.pid, signal.SIGSTOP)
    end = time.time() + LIMIT * 2
    closed = False
    bounds = []
    if style == "frames":
        k = 0
        for m in ms:
            k += 4 + len(m)
            bounds.append(k + r.choice([0, 1, 2, 3, 4, -1, -2, -3]))
    drainp = r.choice([0.02, 0.3, 1])
    while True:
        if time.time() > end:
            raise Hang("hang", "sub stands still after %d of %d messages, %d of %d bytes sent" % (len(got), len(ms), pos, len(stream)))
        busy = False
        if pos < len(stream):
            if style in ("all", "stopped"):
                k = len(stream)
            elif style == "tiny":
                k = pos + r.choice([1, 1, 2, 3, 5])
            elif style == "frames":
                k = next((b for b in bounds if b > pos), len(stream))
            else:
                k = pos + r.choice([1, 3, 4, 5, 100, 4096, 65536, 1000004, 1048580])
            try:
                pos += s.send(stream[pos:k])
                busy = True
            except BlockingIOError:
                if style == "stopped":
                    os.kill(sub.pid, signal.SIGCONT)
                    style = "all"
            except OSError as e:
                if bad is None:
                    t.alive(sub)
                    raise Fail("sub_closed", "sub closed the connection: %s" % e)
                pos = len(stream)
        else:
            if style == "stopped":
                time.sleep(0.002)
                os.kill(sub.pid, signal.SIGCONT)
                style = "all"
            if not closed and (bad or r.random() < 0.3):
                try:
                    s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                closed = True
        if r.random() < drainp or pos >= len(stream):
            m = t.lib.read(rh)
            if m:
                got.append(m)
                busy = True
                if len(got) > len(ms) or m != ms[len(got) - 1]:
                    raise Fail("sub_content", "%s stream: message %d written to the ring has %d bytes (%s), expected %s" % (
                        bad or "good", len(got) - 1, len(m), m[:16].hex(),
                        "none" if len(got) > len(ms) else "%d (%s)" % (len(ms[len(got) - 1]), ms[len(got) - 1][:16].hex())))
            elif bad and sub.poll() is not None:
                m = t.lib.read(rh)
                if not m:
                    break
                got.append(m)
                if len(got) > len(ms) or m != ms[len(got) - 1]:
                    raise Fail("sub_content", "%s stream: a message that is not in it" % bad)
        if not bad:
            if len(got) == len(ms) and pos >= len(stream):
                break
            if not busy and sub.poll() is not None:
                # it ended: at the end of the stream that is right
                m = t.lib.read(rh)
                if not m:
                    t.ended(sub, sub.returncode)
                    raise Fail("sub_ended", "sub ended with %d of %d messages written" % (len(got), len(ms)))
                got.append(m)
                if m != ms[len(got) - 1]:
                    raise Fail("sub_content", "message %d is wrong" % (len(got) - 1))
        if not busy:
            time.sleep(0.001)
    t.count("frames", len(got))
    t.count("judgements", len(got) + 1)
    if bad:
        t.ended(sub, sub.wait())
        t.need(sub.returncode != 0, "sub_status", "sub ended with 0 after a malformed stream")
        t.count("malformed")
    else:
        time.sleep(0.003)
        t.need(not t.lib.read(rh), "sub_content", "more messages in the ring than in the stream")
        if closed:
            t.finish(sub)
    s.close()
    t.lib.close(rh)
    t.seen("sub", "%s %s n%d size%d" % (bad, style, min(len(ms), 30) // 5, size // 100000))
    if sub.poll() is None:
        t.stop(sub)


def c23_both(t):
    """publisher to subscriber"""
    r = t.r
    a, b = t.path("a"), t.path("b")
    big = r.random() < 0.3
    sz = r.choice([200, 2000, 30000]) if not big else 2500000
    t.lib.init(a, sz, 0, None, r.choice([1, 5, 500]))
    t.lib.init(b, sz + r.choice([0, 1, sz]), 0, None, r.choice([1, 5, 500]))
    q = port(t)
    env = dict(TP_SHORT=str(r.randrange(1, 10 ** 6))) if r.random() < 0.4 else {}
    pub = t.start(["pub", str(q), a], env=env, stdout=subprocess.DEVNULL)
    end = time.time() + LIMIT * 2
    while True:
        t.alive(pub)
        with open("/proc/net/tcp") as f:
            if (":%04X 00000000:0000 0A" % q) in f.read():
                break
        if time.time() > end:
            raise Hang("hang", "pub does not listen")
        time.sleep(0.003)
    sub = t.start(["sub", "127.0.0.1:%d" % q, b], stdout=subprocess.DEVNULL)
    n = r.choice([5, 50, 200]) if not big else 12
    ms = [t.blob(min(sz, t.size(big) if not big or r.random() < 0.5 else r.choice([1000000, 600000]))) for _ in range(n)]
    wh, rh = t.lib.open(a, WR), t.lib.open(b, RD)
    got, w = [], 0
    pace = r.choice([0.1, 0.5, 1])
    while len(got) < n:
        t.alive(pub)
        t.alive(sub)
        if time.time() > end:
            raise Hang("hang", "pub to sub stands still: %d written, %d arrived of %d" % (w, len(got), n))
        busy = False
        if w < n and r.random() < pace:
            rc = t.lib.write(wh, ms[w])
            if rc > 0:
                w += 1
                busy = True
        m = t.lib.read(rh) if r.random() < 0.5 else b""
        if m:
            got.append(m)
            busy = True
            t.need(m == ms[len(got) - 1], "both_content", "message %d: %d bytes, expected %d" % (len(got) - 1, len(m), len(ms[len(got) - 1])))
        if not busy:
            time.sleep(0.001)
    t.lib.close(wh)
    t.lib.close(rh)
    t.count("frames", n)
    t.seen("both", "n%d big%d" % (n, big))
    t.stop(pub)
    t.stop(sub)
    t.need(t.lib.drain(a) == [] and t.lib.drain(b) == [], "left", "messages are left, or more than were written")


def c23(t):
    k = t.r.random()
    (c23_pub if k < 0.4 else c23_sub if k < 0.85 else c23_both)(t)


# ---------------------------------------------------------------- C24
def c24(t):
    r = t.r
    S, A, B = t.path("s"), t.path("a"), t.path("b")
    big = r.random() < 0.15
    n = r.choice([1, 3, 20, 60, 150]) if not big else r.choice([2, 6, 12])
    ms = []
    for i in range(n):
        m = t.blob(t.size(False) if not big else r.choice([1, 1000000, 999999, 65536, 300000]))
        ms.append((struct.pack("<H", i) + m[2:]) if len(m) > 2 else m)
    mx = max(map(len, ms))
    over = not big and r.random() < 0.1   # a message too big for a destination
    cap = {}
    for f in (S, A, B):
        cap[f] = mx + r.choice([0, 0, 1, 50, mx * 3])
        if t.lib.init(f, cap[f], 0, None, r.choice([1, 2, 7, 1000])) < 0:
            raise Fail("init", "shr_init failed")
    bad = None
    if over:
        d = r.choice([A, B])
        t.lib.init(d, max(1, mx - 1))
        bad = next(i for i, m in enumerate(ms) if len(m) > max(1, mx - 1)) if mx > 1 else None
        if bad is None:
            t.lib.init(d, mx)
    wh = t.lib.open(S, WR)
    w = 0
    for _ in range(r.randrange(0, 4)):
        if w < n and t.lib.write(wh, ms[w]) > 0:
            w += 1
    args = ["tee"] + (["-b"] if r.random() < 0.2 else []) + [S, A, B]
    tee = t.start(args, stdout=subprocess.DEVNULL)
    h = {A: t.lib.open(A, RD), B: t.lib.open(B, RD)}
    got = {A: [], B: []}
    pace = {A: r.choice([0.1, 0.4, 1]), B: r.choice([0.1, 0.4, 1])}
    wpace = r.choice([0.1, 0.6, 1])
    kill = r.random() < 0.25 and bad is None
    killat = r.randrange(0, n + 1) if kill else -1
    nap = r.random() < 0.1
    end = time.time() + LIMIT * 2
    term = r.random() < 0.3
    killed = False

    def take(f):
        m = t.lib.read(h[f])
        if not m:
            return False
        k = len(got[f])
        got[f].append(m)
        t.need(k < n and m == ms[k], "tee_content", "message %d in ring %s has %d bytes %s, expected %s" % (
            k, os.path.basename(f), len(m), m[:12].hex(), "none" if k >= n else "%d %s" % (len(ms[k]), ms[k][:12].hex())))
        return True

    while True:
        if time.time() > end:
            raise Hang("hang", "tee stands still: %d written, %d and %d copied of %d" % (w, len(got[A]), len(got[B]), n))
        busy = False
        if w < n and r.random() < wpace and not (nap and w == n // 2):
            rc = t.lib.write(wh, ms[w])
            if rc > 0:
                w += 1
                busy = True
        elif nap and w == n // 2 and len(got[A]) == w == len(got[B]):
            time.sleep(r.choice([0.03, 1.2]))
            nap = False
        for f in (A, B):
            if r.random() < pace[f] or w == n or nap:
                busy |= take(f)
        if kill and w >= killat and (w == n or r.random() < 0.1):
            t.stop(tee)
            killed = True
            break
        if bad is not None and tee.poll() is not None:
            t.need(t.ended(tee, tee.returncode) != 0, "tee_status", "tee ended with 0 although a message was too big for a ring")
            break
        if bad is None:
            t.alive(tee)
            if len(got[A]) == n and len(got[B]) == n:
                break
        if not busy:
            time.sleep(0.0002 if r.random() < 0.98 else 0.005)
    if not killed and bad is None:
        if term:
            tee.send_signal(r.choice([signal.SIGTERM, signal.SIGINT, signal.SIGHUP]))
            t.finish(tee)
        else:
            t.stop(tee)
    while take(A):
        pass
    while take(B):
        pass
    left = t.lib.drain(S)
    a, b, s = len(got[A]), len(got[B]), w - len(left)
    t.need(left == ms[s:w], "tee_left", "the messages left in the source are not the last ones written")
    t.count("messages", a + b)
    if killed or bad is not None:
        # the message in hand at most
        t.need(min(a, b) >= s - 1 and max(a, b) <= s, "tee_lost",
               "%d taken from the source, %d and %d copied (%s)" % (s, a, b, "killed" if killed else "message %d too big" % bad))
        if bad is not None:
            t.need(s == bad + 1, "tee_left", "tee went on after message %d that it could not write (%d taken)" % (bad, s))
        t.count("kills" if killed else "too_big")
    else:
        t.need(a == b == s == n, "tee_lost", "%d written, %d taken, %d and %d copied" % (n, s, a, b))
    for x in (wh, h[A], h[B]):
        t.lib.close(x)
    t.seen("tee", "n%d big%d kill%d bad%s pace%s %s" % (n, big, kill, bad, pace[A], pace[B]))


# ---------------------------------------------------------------- C25
LET = dict(d=DROP, f=FARM, k=KEEP, l=MLOCK, s=SYNC)


def sizearg(r, small=True):
    k = r.random()
    if k < 0.4:
        n = r.choice([1, 2, 100, 4095, 4096, 4097, 65536]) if r.random() < 0.5 else r.randrange(1, 100000)
        return str(n), n
    if k < 0.7:
        n = r.randrange(1, 300)
        return "%d%s" % (n, r.choice("kK")), n << 10
    if k < 0.85 or small:
        n = r.randrange(1, 5)
        return "%d%s" % (n, r.choice("mM")), n << 20
    if k < 0.93:  # many digits
        e, u = r.choice([(62, 0), (62, 0), (52, 1), (42, 2)])
        n = r.randrange(1, 1 << r.randrange(20, e))
        return str(n) + r.choice(["", "kK", "mM"][u] or [""]), n << 10 * u
    n = r.randrange(1, 9000)
    u = r.choice("gGtT")
    return "%d%s" % (n, u), n << (30 if u in "gG" else 40)


def snapshot(f):
    try:
        s = os.stat(f)
        with open(f, "rb") as fh:
            return (s.st_ino, fh.read())
    except OSError:
        return None


def c25_create(t):
    r = t.r
    rec = r.random() < 0.15 and t.spec["variant"] != "asan"
    sz, size = sizearg(r, not rec)
    args = ["create", "-s", sz]
    letters = "".join(r.sample("dfksl", r.choice([0, 0, 1, 1, 2, 3])))
    flags = 0
    for c in letters:
        flags |= LET[c]
    if letters:
        if r.random() < 0.3:
            for c in letters:
                args += ["-m", c]
        else:
            args += ["-m", letters]
    maxm = None
    if r.random() < 0.4:
        maxm = r.choice([1, 2, 10, 1000, 20000]) if not rec else r.randrange(1, 1 << r.randrange(1, 32))
        args += ["-N", str(maxm)]
    app = None
    if r.random() < 0.4:
        app = t.blob(r.choice([1, 3, 4096, 5000, 100000]) if r.random() < 0.6 else t.size(False))
        with open(t.path("app"), "wb") as f:
            f.write(app)
        args += ["-A", t.path("app")]
    if r.random() < 0.3:  # any order
        pairs = [args[i:i + 2] for i in range(1, len(args), 2)]
        r.shuffle(pairs)
        args = ["create"] + sum(pairs, [])
    names = [t.path("r%d" % i) for i in range(r.choice([1, 1, 2, 3]))]
    if rec:
        rc, _ = t.run(args + names, env=dict(TP_INIT="1", TP_LOG=t.path("log")))
        t.need(rc == 0, "create_status", "create ended with %d" % rc)
        lines = open(t.path("log")).read().splitlines()
        h = 7
        for b in app or b"":
            h = (h * 31 + b) & 0xffffffff
        want = ["init %d %d app %d %d max %d %s" % (size, flags, len(app or b""), h, maxm or 0, n) for n in names]
        t.need(lines == want, "create_args", "create %s: the library was asked for %s, expected %s" % (args, lines, want))
        t.seen("create", "args " + sz[-1])
        return
    bad = r.random()
    if bad < 0.25:
        kind = r.choice(["letter", "nosize", "zero", "suffix", "noapp", "emptyapp", "nodir", "isdir", "huge"])
        old = None
        if r.random() < 0.5 and kind not in ("nodir", "isdir", "huge"):
            t.lib.init(names[0], 1000)
            t.lib.fill(names[0], [b"kept"])
            old = snapshot(names[0])
        a = [x for x in args]
        nm = list(names)
        if kind == "letter":
            a += ["-m", r.choice(["z", "dx", "kq", "D", "1"])]
        elif kind == "nosize":
            a = ["create"] + (["-m", letters] if letters else [])
        elif kind == "zero":
            a += ["-s", r.choice(["0", "0k"])]
        elif kind == "suffix":
            a += ["-s", r.choice(["10x", "5q", "7%", "k", "x"])]
        elif kind == "noapp":
            a += ["-A", t.path("missing")]
        elif kind == "emptyapp":
            open(t.path("empty"), "w").close()
            a += ["-A", t.path("empty")]
        elif kind == "nodir":
            nm.insert(r.randrange(len(nm) + 1), t.path("no/such"))
        elif kind == "isdir":
            os.mkdir(t.path("d"))
            nm.insert(r.randrange(len(nm) + 1), t.path("d"))
            if flags & KEEP:
                a = ["create", "-s", sz]
        elif kind == "huge":
            a += ["-s", r.choice(["8000000t", "9223372036854775807"])]
        rc, _ = t.run(a + nm)
        t.need(rc != 0, "create_status", "create ended with 0 (%s)" % kind)
        if old:
            t.need(snapshot(names[0]) == old, "create_touched", "create that failed (%s) changed an existing ring" % kind)
        elif kind not in ("nodir", "isdir"):
            t.need(not os.path.exists(names[0]), "create_left", "create that failed (%s) left a file" % kind)
        t.seen("create", "bad " + kind)
        return
    # existing files
    prior = {}
    for n in names:
        k = r.random()
        if k < 0.25:
            t.lib.init(n, 500, r.choice([0, DROP]), b"old app")
            t.lib.fill(n, [b"old", b"older"])
            prior[n] = "ring"
        elif k < 0.3:
            with open(n, "wb") as f:
                f.write(b"no ring")
            prior[n] = "file"
    snaps = {n: snapshot(n) for n in names}
    ref = t.path("ref")
    if t.lib.init(ref, size, flags & ~KEEP, app, maxm) < 0:
        raise Fail("init", "shr_init failed")
    want = t.lib.stat(ref)
    os.unlink(ref)
    rc, _ = t.run(args + names)
    t.need(rc == 0, "create_status", "create %s ended with %d" % (args, rc))
    for n in names:
        if flags & KEEP and n in prior:
            t.need(snapshot(n) == snaps[n], "create_touched", "create -m k changed an existing file")
            t.seen("create", "kept")
            continue
        s = t.lib.stat(n)
        for k in s:
            if k not in ("sec", "usec"):
                t.need(s[k] == want[k], "create_ring", "create %s: %s is %d, expected %d" % (args, k, s[k], want[k]))
        t.need(s["bn"] == size, "create_ring", "size %d, asked for %d" % (s["bn"], size))
        t.need(maxm is None or s["mm"] == maxm, "create_ring", "limit %d, asked for %s" % (s["mm"], maxm))
        for b in (DROP, FARM, SYNC, MLOCK):
            t.need(bool(s["flags"] & b) == bool(flags & b) or (b == DROP and flags & FARM), "create_ring", "flags %#x, asked for %s" % (s["flags"], letters))
        t.need(t.lib.app(n) == app, "create_app", "the app-data is not that of the file")
        t.seen("create", "%s N%s A%s %s %s" % ("".join(sorted(letters)), maxm is not None, app is not None, sz[-1] if sz[-1].isalpha() else "-", prior.get(n)))


def c25_status(t):
    r = t.r
    p = t.path("ring")
    flags = r.choice([0, 0, DROP, FARM, DROP | SYNC, FARM | DROP, SYNC, MLOCK, MLOCK | FARM, SYNC | MLOCK | DROP])
    app = t.blob(r.choice([1, 10, 4096, 70000])) if r.random() < 0.5 else None
    size = r.choice([1, 50, 1000, 30000])
    t.lib.init(p, size, flags, app, r.choice([None, 1, 3, 50]))
    wh, rh = t.lib.open(p, WR), t.lib.open(p, RD)
    for _ in range(r.randrange(0, 30)):
        if r.random() < 0.6:
            t.lib.write(wh, t.blob(r.randrange(1, size + 1)))
        else:
            t.lib.read(rh)
    if r.random() < 0.5:
        t.lib.close(wh)
        t.lib.close(rh)
        wh = None
    if r.random() < 0.1:
        rc, out = t.run(["status", t.path("missing")])
        t.need(rc != 0, "status_status", "status of a missing ring ended with 0")
    s = t.lib.stat(p)
    args = ["status"]
    outf = None
    if app is not None and r.random() < 0.6:
        outf = t.path("out")
        if r.random() < 0.4:
            with open(outf, "wb") as f:
                f.write(b"z" * 100000)
        args += ["-A", outf]
    before = snapshot(p)[0]
    rc, out = t.run(args + [p])
    t.need(rc == 0, "status_status", "status ended with %d" % rc)
    txt = out.decode(errors="replace")
    names = {"bytes-written": "bw", "bytes-read": "br", "bytes-dropped": "bd", "messages-written": "mw", "messages-read": "mr",
             "messages-dropped": "md", "ring-size": "bn", "bytes-ready": "bu", "max-messages": "mm", "messages-ready": "mu"}
    for k, f in names.items():
        m = re.findall(r"^\s*%s\s+(-?\d+)\s*$" % k, txt, re.M)
        t.need(m == [str(s[f])], "status_text", "status prints %s %s, it is %d" % (k, m, s[f]))
    m = re.findall(r"^\s*attributes\s*(.*)$", txt, re.M)
    words = set(m[0].split()) if len(m) == 1 else None
    want = {n for n, b in dict(drop=DROP, farm=FARM, mlock=MLOCK, sync=SYNC).items() if s["flags"] & b}
    t.need(words is not None and words - {"appdata", "none"} == want and not (want and "none" in words) and words, "status_text",
           "status prints attributes %s, they are %s" % (words, want))
    m = re.findall(r"^\s*app-data\s+(\d+)\s*$", txt, re.M)
    t.need(m == [str(len(app or b""))], "status_text", "status prints app-data %s, it has %d bytes" % (m, len(app or b"")))
    if outf:
        with open(outf, "rb") as f:
            b = f.read()
        t.need(b == app, "status_app", "status -A wrote %d bytes, the app-data has %d" % (len(b), len(app)))
    t.need(snapshot(p)[0] == before, "status_changed", "status replaced the file")
    s2 = t.lib.stat(p)
    t.need(s2 == s, "status_changed", "after status: %s, before: %s" % (s2, s))
    t.need(t.lib.app(p) == app, "status_changed", "status changed the app-data")
    got = t.lib.drain(p)
    t.need(len(got) == s["mu"] and sum(map(len, got)) == s["bu"], "status_changed", "status took messages")
    if wh:
        t.lib.close(wh)
        t.lib.close(rh)
    t.seen("status", "%x %s mu%d md%d" % (flags, app is not None, min(s["mu"], 5), min(s["md"], 5)))


def c25(t):
    (c25_create if t.r.random() < 0.6 else c25_status)(t)


# ---------------------------------------------------------------- C26
TMPFS, RAMFS, HUGE = 0x01021994, 0x858458F6, 0x958458F6
FS = [TMPFS, RAMFS, HUGE, 0xEF53, 0x58465342, 0x9123683E, 0x794c7630, 0x6969, 0x62656572, 0x1021997]


def c26(t):
    r = t.r
    os.mkdir(t.path("cwd"))
    parent = t.path("p")
    os.mkdir(parent)
    kind = r.choice(["dir"] * 8 + ["missing", "file", "link", "slash"])
    real = os.path.join(parent, r.choice(["mnt", "a b", "x" * 200]))
    d = real
    if kind != "missing":
        if kind == "file":
            open(real, "w").close()
        else:
            os.mkdir(real)
    if kind == "link":
        d = t.path("link")
        os.symlink(real, d)
    if kind == "slash":
        d = real + "/"
    isdir = kind not in ("missing", "file")
    fstype = r.choice(FS)
    mp = r.random() < 0.5
    ram = isdir and mp and fstype in (TMPFS, RAMFS, HUGE)
    env = dict(TP_LOG=t.path("log"), TP_TYPE=str(fstype), TP_DEV="1" if mp else "", TP_BSIZE="4096",
               TP_BLOCKS=str(r.choice([1, 1000, 262144, 10 ** 8])), TP_BFREE="1")
    if isdir:
        env["TP_INO"] = str(os.stat(real).st_ino)
        env["TP_PARENT"] = str(os.stat(parent).st_ino)
    what = r.choice(["mount", "mount", "subdirs", "query", "umount"])
    mfail = r.random() < 0.2
    opts, subs = [], []
    typ, size, huge = "ramfs", None, None
    env["TP_SYS"] = t.path("sys")
    open(t.path("sys"), "w").close()
    if what in ("mount", "subdirs"):
        if r.random() < 0.7:
            typ = r.choice(["tmpfs", "ramfs", "hugetlbfs"])
            opts += ["-t", typ]
        if r.random() < 0.6:
            a, size = sizearg(r, False)
            opts += ["-s", a]
        if r.random() < 0.4:
            huge = r.choice([1, 7, 512, 100000])
            opts += ["-H", str(huge)]
            if r.random() < 0.3:
                env["TP_SYSFAIL"] = str(r.choice([2, 13, 30]))
        if what == "subdirs":
            opts.insert(r.choice([0, len(opts)]), "-d")
            subs = r.sample(["one", "two", "three", "one/in", "a b", ".hid", "z" * 100], r.randrange(0, 4))
            subs.sort()
        elif r.random() < 0.3:
            subs = []
        if mfail:
            env["TP_MOUNT"] = str(r.choice([1, 12, 16, 19, 22]))
    elif what == "query":
        opts = ["-q"]
    else:
        opts = ["-u"]
        if mfail:
            env["TP_UMOUNT"] = str(r.choice([1, 16, 22]))
    inroot = set(os.listdir(parent))
    exist = None
    if subs and isdir and r.random() < 0.2:
        exist = subs[0].split("/")[0]
        os.mkdir(os.path.join(real, exist))
    args = ["mount"] + opts + [d] + subs
    rc, out = t.run(args, env=env, cwd=t.path("cwd"))
    txt = out.decode(errors="replace")
    log = open(t.path("log")).read().splitlines() if os.path.exists(t.path("log")) else []
    mounts = [l for l in log if l.startswith("mount ")]
    umounts = [l for l in log if l.startswith("umount ")]
    ino = os.stat(real).st_ino if kind != "missing" else 0
    made = sorted(os.path.relpath(os.path.join(a, x), real) for a, ds, fs in os.walk(real) for x in ds + fs) if isdir else []
    where = "%s of a %s (file system %#x, mount point: %s)" % (" ".join(args[:-1 - len(subs)]), kind, fstype, mp)
    t.need(os.listdir(t.path("cwd")) == [], "elsewhere", where + " made something in the current directory")
    t.need(set(os.listdir(parent)) == inroot, "elsewhere", where + " made something beside the directory")
    pages = [l for l in log if l.startswith("sys ")]
    nrpages = open(t.path("sys")).read()
    if what in ("query", "umount") or ram or not isdir or mfail:
        t.need(not pages, "hugepages", where + " sets the number of huge pages")
    if what in ("query", "umount"):
        t.need(not mounts, "mounted", where + " mounted")
        t.need(made == [], "made", where + " made directories")
    if what == "query":
        t.need(not umounts, "unmounted", where + " unmounted")
        if ram:
            name = {TMPFS: "tmpfs", RAMFS: "ramfs", HUGE: "hugetlbfs"}[fstype]
            txt2 = txt.replace(d, "")
            t.need("not a ramdisk" not in txt2 and name in txt2, "query", where + " prints " + txt)
        elif isdir:
            txt2 = txt.replace(d, "")
            t.need("not a ramdisk" in txt2, "query", where + " prints " + txt)
    elif what == "umount":
        t.need(umounts == ["umount %d" % ino], "umount", where + " makes the calls %s" % log)
        t.need((rc == 0) == (isdir and not mfail or kind == "file" and not mfail), "umount_status", where + " ended with %d" % rc)
    else:
        t.need(not umounts, "unmounted", where + " unmounted")
        if ram:
            t.need(not mounts, "stacked", where + " mounted on a RAM disk")
            t.need(made == ([exist] if exist else []), "made", where + " made directories without mounting")
        elif not isdir:
            t.need(rc != 0, "mount_status", where + " ended with 0")
        else:
            t.need(len(mounts) == 1, "mount", where + " makes the calls %s" % log)
            m = re.fullmatch(r"mount (\d+) type=(\S*) flags=(\d+) data=(.*)", mounts[0])
            t.need(m and int(m.group(1)) == ino, "mount", where + " mounts elsewhere: " + mounts[0])
            t.need(m.group(2) == typ, "mount", where + " mounts type " + m.group(2))
            sz = re.findall(r"(?:^|,)size=(\d+)(?:,|$)", m.group(4))
            t.need(sz == ([str(size)] if size is not None else []), "mount", where + " passes %r, expected size %s" % (m.group(4), size))
            if mfail:
                t.need(rc != 0, "mount_status", where + " ended with 0 although mount failed")
                t.need(made == ([exist] if exist else []), "made", where + " made directories although mount failed")
            else:
                ok = set()
                good = True
                for s in subs:
                    par = os.path.dirname(s)
                    if s == exist or (par and par not in ok and par != exist):
                        good = False
                        break
                    ok.add(s)
                want = sorted(ok | ({exist} if exist else set()))
                t.need(made == want, "made", where + " made %s, expected %s" % (made, want))
                sysfail = "TP_SYSFAIL" in env
                if good and huge is not None:
                    t.need(pages == ["sys /proc/sys/vm/nr_hugepages"], "hugepages", where + " did not set the number of huge pages: %s" % log)
                    t.need(sysfail or nrpages.strip() == str(huge), "hugepages", where + " sets the number of huge pages to %r" % nrpages)
                    t.count("hugepages")
                elif huge is None:
                    t.need(not pages, "hugepages", where + " sets the number of huge pages")
                t.need((rc == 0) == (good and not (sysfail and huge is not None)), "mount_status", where + " %s ended with %d" % (subs, rc))
    t.seen("mount", "%s %s fs%x mp%d fail%d subs%d" % (what, kind, fstype, mp, mfail, len(subs)))




# ---------------------------------------------------------------- C31: bw-tool
ENDING = {signal.SIGHUP: "Hangup", signal.SIGTERM: "Terminated", signal.SIGINT: "Interrupt", signal.SIGQUIT: "Quit", signal.SIGALRM: "Alarm clock"}
OTHER = [signal.SIGUSR1, signal.SIGUSR2, signal.SIGWINCH, signal.SIGPIPE, signal.SIGCHLD, signal.SIGIO, signal.SIGVTALRM, signal.SIGRTMIN + 3]


def bwstate(p):
    """(state, context switches, sockets) of a process"""
    try:
        with open("/proc/%d/status" % p.pid) as f:
            d = dict(x.split(":", 1) for x in f.read().split("\n") if ":" in x)
        n = 0
        for f in os.listdir("/proc/%d/fd" % p.pid):
            try:
                n += os.readlink("/proc/%d/fd/%s" % (p.pid, f)).startswith("socket:")
            except OSError:
                pass
        return d["State"].split()[0], d["voluntary_ctxt_switches"] + d["nonvoluntary_ctxt_switches"], n
    except (OSError, KeyError):
        return "X", "", 0


class Waiter:
    def __init__(self, t, f, opts):
        self.t, self.opts = t, opts
        self.t0 = time.time()
        self.p = t.start(opts + ["-r", f, "wait"], prog=t.bw)
        self.api = "-w" in opts

    def err(self):
        self.p.ef.seek(0)
        return self.p.ef.read().decode(errors="replace")

    def asleep(self, timeout=LIMIT):
        """waits until it sleeps, holding a place, or has ended; True if it sleeps"""
        end, last, same = time.time() + timeout, None, 0
        while time.time() < end:
            if self.p.poll() is not None:
                return False
            x = bwstate(self.p)
            same = same + 1 if x == last and x[0] == "S" and x[2] >= 1 else 0
            if same >= 4:
                return True
            last = x
            time.sleep(0.004)
        raise Hang("hang", "a waiter neither sleeps nor ends")

    def expect(self, how, wakers=(), single=True, sig=None):
        t = self.t
        rc, out = t.finish(self.p)
        e = self.err()
        what = "bw-tool %s, %s: status %d, %r" % (" ".join(self.opts), how, rc, e[-400:])
        lines = e.split("\n")
        if sig is not None:
            t.need(rc == 255 and b"error exit" in out, "signal_status", what)
            t.need("got signal %d (%s)" % (sig, ENDING[sig]) in lines, "signal_named", what)
            return
        t.need(rc == 0 and b"error" not in out, "wake_status", what)
        if self.api:
            t.need("bw_wait_ul: awoken" in lines, "awoken", what)
        sent = [x for x in lines if x.startswith("wakeup sent by")]
        t.need(len(sent) == 1 and sent[0] in ["wakeup sent by pid=%d, uid=%d, gid=%d" % (w, os.getuid(), os.getgid()) for w in wakers], "waker_named", what + "; wakers %s" % list(wakers))
        fd = [x for x in lines if x.startswith("bw-tool: fd")]
        if not self.api:
            t.need(fd[:1] == ["bw-tool: fd ready"], "ready", what)
            fd = fd[1:]
        want = "clear" if "-c" in self.opts else "ready" if "-f" in self.opts else "clear" if single else None
        t.need(len(fd) == 1 and (want is None or fd[0] == "bw-tool: fd " + want), "final", what)
        t.seen("ends", (self.api, want, how))


def c31(t):
    r = t.r
    t.bw = os.path.join(t.spec["build"], "lib", "bw-tool")
    f = t.path("h")
    if r.random() < 0.08:  # no proper file
        if r.random() < 0.5:
            open(f, "w").close()
        rc, out = t.run(["-r", f, r.choice(["wait", "wake"])], prog=t.bw)
        t.need(rc == 255 and b"error exit" in out, "bad_file", "bw-tool on %s file: status %d" % ("an empty" if os.path.exists(f) else "a missing", rc))
        t.seen("bad", os.path.exists(f))
        return
    rc, _ = t.run(["-r", f, "make"], prog=t.bw)
    t.need(rc == 0 and os.path.getsize(f) > 0, "make", "make: status %d" % rc)
    if r.random() < 0.2:
        rc, _ = t.run(["-r", f, "wake"], prog=t.bw)
        t.need(rc == 0, "wake_alone", "a wake with no waiters: status %d" % rc)

    def opts():
        o = []
        if r.random() < 0.5:
            o.append("-w")
        if r.random() < 0.35:
            o.append("-f")
        if r.random() < 0.35:
            o.append("-c")
        if r.random() < 0.2:
            o.append("-v")
        return o

    many = r.random() < 0.02
    kind = r.random()
    if kind < 0.04 and not many:  # the wake comes before the wait
        w = Waiter(t, f, opts() + ["-d", "1"])
        end = time.time() + LIMIT
        while bwstate(w.p)[2] < 2 and time.time() < end:
            time.sleep(0.002)
        w.asleep()
        p = t.start(["-r", f, "wake"], prog=t.bw)
        rc, _ = t.finish(p)
        t.need(rc == 0, "wake", "wake: status %d" % rc)
        w.expect("woken before it waits", [p.pid])
        return
    if kind < 0.08 and not many:  # the waker was there first
        t0 = time.time()
        p = t.start(["-d", "1", "-r", f, "wake"], prog=t.bw)
        time.sleep(r.choice([0.05, 0.2]))
        ws = [Waiter(t, f, opts()) for _ in range(r.randint(1, 5))]
        for w in ws:
            slept = w.asleep(5) if time.time() - t0 < 0.9 else False
            w.sure = slept and time.time() - t0 < 0.95  # the wake comes later
        rc, _ = t.finish(p)
        t.need(rc == 0, "wake", "wake -d: status %d" % rc)
        for w in ws:
            if w.sure:
                w.expect("woken by one that was there first", [p.pid])
                t.count("woken_by_earlier")
            else:
                t.stop(w.p)
        return
    if kind < 0.11 and not many:
        w = Waiter(t, f, opts() + ["-a", "1"])
        w.expect("alarm", sig=signal.SIGALRM)
        t.need(time.time() - w.t0 >= 0.95, "alarm_early", "an alarm after 1 s came after %.2f s" % (time.time() - w.t0))
        return
    ws, refused = [], 0
    for rnd in range(1 if many else r.randint(1, 3)):
        for _ in range(70 if many else r.randint(1, 6)):
            w = Waiter(t, f, opts())
            if w.asleep():
                ws.append(w)
                t.need(len(ws) <= 64, "places", "%d wait at once" % len(ws))
            else:
                rc, out = t.finish(w.p)
                t.need(len(ws) == 64 and rc == 255 and b"error exit" in out, "refused", "a waiter was refused, or ended without a cause, with %d others: status %d, %r" % (len(ws), rc, w.err()[-300:]))
                refused += 1
        t.seen("crowd", (len(ws), refused))
        for _ in range(r.randint(0, 4)):
            if not ws:
                break
            w = r.choice(ws)
            x = r.random()
            if x < 0.3:
                s = r.choice(OTHER)
                t.op("signal %d to a waiter" % s)
                w.p.send_signal(s)
                time.sleep(0.01)
                t.need(w.asleep(), "ended_by_other_signal", "signal %d ended a waiter: %r" % (s, w.err()[-200:]))
            elif x < 0.6:
                s = r.choice(sorted(ENDING))
                t.op("signal %d to a waiter" % s)
                w.p.send_signal(s)
                ws.remove(w)
                w.expect("signal", sig=s)
                t.seen("signals", (s, w.api))
            elif x < 0.75:
                t.op("a waiter is killed")
                ws.remove(w)
                t.stop(w.p)
            elif x < 0.85:
                rc, _ = t.run(["-r", f, "make"], prog=t.bw)
                t.need(rc == 0, "make", "make again: status %d" % rc)
            else:
                time.sleep(0.02)
                for w in ws:
                    t.need(w.p.poll() is None, "ended", "a waiter ended by itself: %r" % w.err()[-200:])
        n = 1 if r.random() < 0.7 else r.randint(2, 5)
        ps = [t.start(["-r", f, "wake"], prog=t.bw) for _ in range(n)]
        for p in ps:
            rc, _ = t.finish(p)
            t.need(rc == 0, "wake", "wake with %d waiters: status %d" % (len(ws), rc))
        for w in ws:
            w.expect("woken", [p.pid for p in ps], single=n == 1)
        t.count("woken", len(ws))
        ws = []
    t.count("histories")


# ---------------------------------------------------------------- C32
def cpu(p):
    """processor time of a process, in s"""
    try:
        with open("/proc/%d/schedstat" % p.pid) as f:
            return int(f.read().split()[0]) * 1e-9
    except (OSError, ValueError):
        return 0.0


def resting(t, p, how):
    """p has nothing to do: it must come to rest, and use no processor time"""
    last, same, end = None, 0, time.time() + 3
    while same < 4 and time.time() < end:   # a process that sleeps in one place is enough for most
        x = bwstate(p)[:2]
        same = same + 1 if x == last and x[0] == "S" else 0
        last = x
        time.sleep(0.01)
    t.alive(p)
    t.seen("rests", how)
    worst = None
    for _ in range(4):
        a, t0 = cpu(p), time.time()
        time.sleep(0.05 if worst is None else 0.4)
        use = (cpu(p) - a) / (time.time() - t0)
        t.alive(p)
        if use < 0.1:
            t.need(True, "", "")
            t.count("rests")
            return
        worst = min(use, worst or use)
    t.need(False, "tool_spins", "%s, %s, uses %d%% of a processor" % (p.args_[0], how, worst * 100))


def c32(t):
    r = t.r
    p = t.path("ring")
    kind = r.choice(["read", "pub", "sub", "tee", "wait"])
    msgs = lambda k: [t.blob(r.randrange(1, 300)) for _ in range(k)]
    if kind == "wait":
        t.bw = os.path.join(t.spec["build"], "lib", "bw-tool")
        f = t.path("h")
        rc, _ = t.finish(t.start(["-r", f, "make"], prog=t.bw))
        t.need(rc == 0, "make", "bw-tool make: %d" % rc)
        ws = [t.start((["-w"] if r.random() < 0.5 else []) + ["-r", f, "wait"], prog=t.bw) for _ in range(r.randrange(1, 4))]
        for w in ws:
            resting(t, w, "wait")
        return
    t.lib.init(p, r.choice([2000, 20000]), 0, None, r.choice([20, 300]))
    wh = t.lib.open(p, WR)
    put = lambda k: [t.lib.write(wh, m) for m in msgs(k)]
    if kind == "read":
        put(r.choice([0, 1, 5]))
        q = t.start(["read", "-b", "-N", "1000000", p], stdout=subprocess.DEVNULL)
        for _ in range(r.randrange(1, 4)):
            resting(t, q, "read on an empty ring")
            put(r.randrange(1, 7))
    elif kind == "pub":
        n = port(t)
        put(r.choice([0, 3]))
        q = t.start(["pub", str(n), p], stdout=subprocess.DEVNULL)
        if r.random() < 0.5:
            resting(t, q, "no client")
            put(r.randrange(0, 5))
            resting(t, q, "no client, messages in the ring")
        for _ in range(r.randrange(1, 4)):
            s = connect(t, q, n)
            how = r.randrange(3)
            if r.random() < 0.4:
                s.sendall(b"junk" * r.randrange(1, 60))
                resting(t, q, "a client that sent something")
            if how == 0:
                resting(t, q, "an idle client")
                put(r.randrange(1, 7))
                resting(t, q, "an idle client that was sent messages")
            elif how == 1:
                put(r.randrange(1, 7))
                s2 = connect(t, q, n)
                resting(t, q, "one client, one waiting")
                s2.close()
            s.close()
            resting(t, q, "a client gone")
    elif kind == "sub":
        srv = Server(t)
        q = t.start(["sub", "127.0.0.1:%d" % srv.port, p], stdout=subprocess.DEVNULL)
        s = srv.take(t, q)
        s.settimeout(LIMIT)
        ms = msgs(r.randrange(0, 5))
        stream = b"".join(struct.pack("=I", len(m)) + m for m in ms)
        x = r.randrange(3)
        if x == 0:
            resting(t, q, "nothing received")
        s.sendall(stream)
        if x == 1:
            s.sendall(struct.pack("=I", 100) + b"abc" if r.random() < 0.5 else b"\5\0")
            resting(t, q, "part of a message received")
        elif x == 2:
            for _ in range(400):
                s.sendall(struct.pack("=I", 100) + b"x" * 100)
            resting(t, q, "the ring full")
        else:
            resting(t, q, "messages received")
        s.close()
    else:
        d, d2 = t.path("dst"), t.path("dst2")
        t.lib.init(d, r.choice([300, 20000]), 0, None, 20)
        t.lib.init(d2, r.choice([300, 20000]), 0, None, 20)
        put(r.choice([0, 3]))
        q = t.start(["tee", p, d, d2], stdout=subprocess.DEVNULL)
        for _ in range(r.randrange(1, 4)):
            resting(t, q, "the source empty")
            put(r.randrange(1, 4))
        if r.random() < 0.6:
            for _ in range(200):
                t.lib.write(wh, t.blob(200))
            resting(t, q, "a destination full")


FN = dict(C32=c32, C22=c22, C23=c23, C24=c24, C25=c25, C26=c26, C31=c31)


# ---------------------------------------------------------------- running
def one(spec, lib, fn, i, w, base, trace=False):
    """runs a case; returns (case, violation or None)"""
    for attempt in (0, 1):
        t = Case(spec, lib, i, w, base, trace)
        try:
            fn(t)
            return t, None
        except Hang as e:
            if attempt == 0:
                spec["retries"] = spec.get("retries", 0) + 1
                continue  # once more: it may be the machine
            return t, e
        except Fail as e:
            return t, e
        finally:
            if trace:
                for p in t.procs:
                    if not p.ef.closed:
                        p.ef.seek(0)
                        print('stderr of', p.args_[:1], p.ef.read()[-600:].decode(errors='replace'))
            t.close()


def worker(spec, w, n, out):
    fn = FN[spec["prop"]]
    lib = Lib(os.path.join(spec["build_plain"], "src", "libshr.so"))
    base = tempfile.mkdtemp(prefix="w%d." % w, dir=spec["dir"])
    res = dict(counts={}, distinct={}, samples=[], violation=None, done=0)
    cur = os.path.join(spec["dir"], "cur.%s.%d" % (spec["stage"], w))
    devnull = os.open("/dev/null", os.O_WRONLY)
    if not spec.get("trace"):
        os.dup2(devnull, 2)
    for i in range(w, n, spec["jobs"]):
        if time.time() > spec["end"] or os.path.exists(spec["stop"]):
            res["counts"]["cases_skipped_for_time"] = res["counts"].get("cases_skipped_for_time", 0) + len(range(i, n, spec["jobs"]))
            break
        with open(cur, "w") as f:
            f.write(str(i))
        t, v = one(spec, lib, fn, i, w, base)
        for k, x in t.counts.items():
            res["counts"][k] = res["counts"].get(k, 0) + x
        for k, x in t.distinct.items():
            res["distinct"].setdefault(k, set()).update(x)
        if len(res["samples"]) < 1:
            res["samples"].append("case %d: %s" % (i, "; ".join(t.ops)))
        res["done"] += 1
        if v is not None:
            res["violation"] = dict(key=v.key, detail=v.detail, case=i, ops=t.ops)
            open(spec["stop"], "w").close()
            break
    res["counts"]["cases"] = res["done"]
    if spec.get("retries"):
        res["counts"]["retried_hangs"] = spec["retries"]
    res["distinct"] = {k: sorted(v) for k, v in res["distinct"].items()}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def preload():
    b = vlib.build("plain")
    src = os.path.join(vlib.VERIF, "harness", "toolpre.c")
    out = os.path.join(b, "toolpre-%s.so" % vlib._hash([src]))
    with vlib.Lock("toolpre"):
        if not os.path.exists(out):
            vlib.sh("gcc -O1 -w -shared -fPIC %s -o %s.tmp -ldl" % (src, out))
            os.rename(out + ".tmp", out)
    return out


def stage(c, name, prop, n, variant="plain", budget=None):
    spec = dict(prop=prop, stage=name, seed=c.seed, variant=variant, build=vlib.build(variant), build_plain=vlib.build("plain"),
                pre=preload(), dir=c.dir, jobs=vlib.JOBS, stop=os.path.join(c.dir, "stop"),
                end=time.time() + (budget or (1500 if c.thorough else 300)))
    c.stages.append(dict(stage=name, driver="toolchecks.py", variant=variant, cases=n))
    pids = {}
    for w in range(spec["jobs"]):
        out = os.path.join(c.dir, "res.%s.%d" % (name, w))
        pid = os.fork()
        if pid == 0:
            rc = 9
            try:
                os.setsid()
                worker(spec, w, n, out)
                rc = 0
            except vlib.Harness as e:
                with open(out + ".err", "w") as f:
                    f.write("harness " + str(e))
                rc = 9
            except BaseException:
                with open(out + ".err", "w") as f:
                    traceback.print_exc(file=f)
            finally:
                os._exit(rc)
        pids[pid] = (w, out)
    fail = None
    while pids:
        pid, stt = os.wait()
        if pid not in pids:
            continue
        w, out = pids.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        cur = os.path.join(c.dir, "cur.%s.%d" % (name, w))
        case = int(open(cur).read() or 0) if os.path.exists(cur) else 0
        rp = dict(kind="tool", stage=name, prop=prop, variant=variant, seed=c.seed, tier=c.tier, check=c.prop, case=case)
        if os.WIFSIGNALED(stt):
            if os.WTERMSIG(stt) == signal.SIGKILL:
                fail = "a worker was killed"
            else:
                c.violation("lib_crash", "the library crashed (signal %d) under the monitor, case %d" % (os.WTERMSIG(stt), case), rp)
            continue
        if not os.path.exists(out):
            fail = open(out + ".err").read() if os.path.exists(out + ".err") else "a worker gave no result"
            continue
        res = json.load(open(out))
        c.add(res, name)
        v = res["violation"]
        if v:
            rp.update(v)
            c.violation(v["key"], v["detail"] + " (case %d)" % v["case"], rp)
    if os.path.exists(spec["stop"]):
        os.unlink(spec["stop"])
    if fail and not c.violations:
        raise vlib.Harness(fail)


def replay(rp):
    c = vlib.Check(rp["check"], rp["tier"], rp["seed"])
    spec = dict(prop=rp["prop"], stage=rp["stage"], seed=rp["seed"], variant=rp["variant"], build=vlib.build(rp["variant"]),
                build_plain=vlib.build("plain"), pre=preload(), dir=c.dir, jobs=1, trace=1)
    lib = Lib(os.path.join(spec["build_plain"], "src", "libshr.so"))
    t, v = one(spec, lib, FN[rp["prop"]], rp["case"], 0, c.dir, trace=True)
    shutil.rmtree(c.dir, ignore_errors=True)
    print("%s: %s" % (v.key, v.detail) if v else "no violation")
    return 1 if v else 0
