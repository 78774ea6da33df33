"""Builds, driver runs, verdicts and evidence for the checks."""
import ctypes, fcntl, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
OUT = os.environ.get("VERIF_OUT") or VERIF  # evidence and replays go here
JOBS = min(8, os.cpu_count() or 4)

VARIANTS = {
    # assertions on; checks by the monitors
    "plain": dict(cc="gcc", flags="-O1 -g -U_FORTIFY_SOURCE -fno-omit-frame-pointer", extra=""),
    "asan": dict(cc="gcc", flags="-O1 -g -U_FORTIFY_SOURCE -fno-omit-frame-pointer "
                 "-fsanitize=address,undefined -fno-sanitize-recover=all", extra=""),
    "tsan": dict(cc="clang", flags="-O1 -g -U_FORTIFY_SOURCE -fno-omit-frame-pointer -fsanitize=thread", extra=""),
}
DRV_FLAGS = {
    "plain": "-O2 -g",
    "asan": "-O1 -g -fsanitize=address -DVI_NO_MALLOC -DVI_NO_MEMCPY",
    "tsan": "-O1 -g -fsanitize=thread",
    "vg": "-O1 -g -DVI_NO_MALLOC -DVI_NO_MEMCPY",
}


class Harness(Exception):
    """the check could not be carried out"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise Harness("command failed: %s\n%s" % (cmd, r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def _files(root, skip=()):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in skip]
        out += [os.path.join(d, f) for f in fs]
    return [f for f in out if os.path.isfile(f)]


def repo_hash():
    """content of the parts of the tree that the build reads"""
    skip = (".git", "_build", "build", "tests", "doc", "docs")
    return _hash([f for f in _files(REPO, skip) if not f.endswith((".o", ".so", ".a"))])


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(variant):
    """build /repo's tree out of tree; returns the build directory"""
    v = VARIANTS[variant]
    with Lock(variant):
        d = os.path.join(BUILD, "%s-%s" % (variant, repo_hash()))
        if os.path.exists(os.path.join(d, "ok")):
            return d
        for o in os.listdir(BUILD):  # an older tree
            if o.startswith(variant + "-"):
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        os.makedirs(d)
        fl = "-I%s/src -I%s/lib %s" % (REPO, REPO, v["flags"])
        try:
            sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_COMPILER=" + v["cc"],
                "-DCMAKE_C_FLAGS=" + fl])
            sh(["ninja", "-C", d, "all"])
            for need in ("src/libshr.so", "util/shr-tool", "lib/bw-tool"):
                if not os.path.exists(os.path.join(d, need)):
                    raise Harness("the build made no " + need)
        except Harness:
            shutil.rmtree(d, ignore_errors=True)
            raise
        open(os.path.join(d, "ok"), "w").close()
        return d


def driver(name, variant="plain", dflags=None):
    """build a driver against a variant of the library; returns its path"""
    d = build(variant)
    dflags = dflags or variant
    src = [os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness"))]
    h = _hash([f for f in src if f.endswith((".h", "vi.c")) or os.path.basename(f) == name + ".cc"])
    h = hashlib.sha256((h + DRV_FLAGS[dflags]).encode()).hexdigest()[:16]
    out = os.path.join(d, "%s-%s-%s" % (name, dflags, h))
    with Lock("drv-%s-%s" % (name, dflags)):
        if os.path.exists(out):
            return out
        fl = DRV_FLAGS[dflags]
        inc = "-I%s/src -I%s/lib -I%s/harness -U_FORTIFY_SOURCE -w -pthread" % (REPO, REPO, VERIF)
        o, cxx = out + ".vi.o", "clang++" if dflags == "tsan" else "g++"
        with open("%s/harness/%s.cc" % (VERIF, name)) as f:
            if "NO_VI" in f.read():
                o = ""
        if o:
            sh("gcc %s %s -c %s/harness/vi.c -o %s" % (fl, inc, VERIF, o))
        sh(cxx + " -std=c++17 %s %s -rdynamic %s/harness/%s.cc %s -o %s.tmp %s -L%s/src -lshr -Wl,-rpath,%s/src -ldl"
           % (fl, inc, VERIF, name, o, out, "-lubsan" if dflags == "asan" else "", d, d))
        os.rename(out + ".tmp", out)
        return out


def scratch():
    base = "/dev/shm"
    try:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < (1 << 28) or not os.access(base, os.W_OK):
            raise OSError
    except OSError:
        base = os.path.join(BUILD, "tmp")
        os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix="shrv.", dir=base)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = scratch()
        self.counts, self.distinct, self.samples = {}, {}, []
        self.violations = []   # (key, detail, replay dict)
        self.inconclusive = []
        self.stages = []
        self.notes = []
        self.lock = threading.Lock()
        self.known = load_known(prop)

    # -- results
    def add(self, d, stage):
        with self.lock:
            for k, v in d.get("counts", {}).items():
                self.counts[stage + "." + k] = self.counts.get(stage + "." + k, 0) + v
            for k, v in d.get("distinct", {}).items():
                self.distinct.setdefault(stage + "." + k, set()).update(v)
            for s in d.get("samples", []):
                if len(self.samples) < 8:
                    self.samples.append("%s: %s" % (stage, s[:1500]))

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def seen(self, k, v):
        with self.lock:
            self.distinct.setdefault(k, set()).add(v)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 8:
                self.samples.append(s[:1500])

    def violation(self, key, detail, replay):
        with self.lock:
            self.violations.append((key, detail, replay))

    # -- drivers
    def run_driver(self, stage, name, cases, variant="plain", dflags=None, mode="", chunk=None, wrap=(), slow=1,
                   env=None, jobs=None, budget=None, prop=None, start=0):
        exe = driver(name, variant, dflags)
        if budget is None:
            budget = 1500 if self.thorough else 330
        jobs = jobs or JOBS
        chunk = chunk or max(1, min(2000, cases // (jobs * 3) or 1))
        args = dict(stage=stage, exe=exe, name=name, variant=variant, dflags=dflags, mode=mode, wrap=list(wrap), slow=slow,
                    env=env or {}, prop=prop or self.prop)
        self.stages.append(dict(stage=stage, driver=name, variant=dflags or variant, mode=mode, cases=cases))
        end = time.time() + budget
        stop = threading.Event()

        def work(a, b):
            if stop.is_set() or time.time() > end:
                self.count(stage + ".cases_skipped_for_time", b - a)
                return
            self._chunk(args, a, b, stop, 0)

        with ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(work, a, min(start + cases, a + chunk)) for a in range(start, start + cases, chunk)]
            err = None
            for f in as_completed(fs):
                if f.exception():
                    err = f.exception()
                    stop.set()
            if err:
                raise err

    def _exec(self, a, lo, hi, trace=0, stdout=None, timeout=None):
        tmp = tempfile.mkdtemp(prefix="run.", dir=self.dir)
        out, status = os.path.join(tmp, "out.json"), os.path.join(tmp, "status")
        cmd = a["wrap"] + [a["exe"], "--prop", a["prop"], "--mode", a["mode"], "--seed", str(self.seed), "--from", str(lo),
                           "--to", str(hi), "--dir", tmp, "--out", out, "--status", status, "--slow", str(a["slow"]),
                           "--trace", str(trace), "--tier", "1" if self.thorough else "0"]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:handle_segv=%s:log_path=%s/san" % (
            "0" if a.get("nosegv") else "1", tmp)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77:log_path=%s/san" % tmp
        env["TSAN_OPTIONS"] = "exitcode=77:report_signal_unsafe=0:log_path=%s/san" % tmp
        env.update(a["env"])
        with open(os.path.join(tmp, "err"), "wb") as ef:
            p = subprocess.Popen(cmd, stdout=stdout or subprocess.PIPE, stderr=ef, stdin=subprocess.DEVNULL, env=env,
                                 start_new_session=True)
            to = False
            try:
                so = p.communicate(timeout=timeout or 900)[0]
            except subprocess.TimeoutExpired:
                to = True
                so = b""
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            if to:
                so = p.communicate()[0]
        rc = p.returncode
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        cas, what = lo, ""
        if os.path.exists(status):
            with open(status, "rb") as f:
                raw = f.read()
            if len(raw) >= 216:
                cas, _ = struct.unpack("QQ", raw[:16])
                what = raw[16:216].split(b"\0")[0].decode(errors="replace")
        with open(os.path.join(tmp, "err"), "rb") as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(max(0, sz - 3000))
            err = f.read().decode(errors="replace")
        for fn in sorted(os.listdir(tmp)):
            if fn.startswith("san."):
                with open(os.path.join(tmp, fn), errors="replace") as f:
                    err += "\n" + f.read()[:6000]
                if rc == 0:
                    rc = 77
        shutil.rmtree(tmp, ignore_errors=True)
        return rc, res, cas, what, err, (so or b"").decode(errors="replace"), to

    def _chunk(self, a, lo, hi, stop, depth):
        rc, res, cas, what, err, so, to = self._exec(a, lo, hi)
        if rc == 0 and res is not None and not to:
            self.add(res, a["stage"])
            return
        rp = dict(kind="driver", **{k: a[k] for k in ("stage", "name", "variant", "dflags", "mode", "wrap", "slow", "env", "prop")},
                  case=cas, check=self.prop, seed=self.seed, tier=self.tier)
        if rc == 10 and res and "violation" in res:
            v = res["violation"]
            rp.update(key=v["key"], detail=v["detail"], config=v["config"], ops=v["ops"])
            self.violation(v["key"], v["detail"], rp)
            if res:
                self.add(res, a["stage"])
            if self.is_known(v["key"], v["detail"]) and hi > cas + 1:
                self._chunk(a, cas + 1, hi, stop, depth)  # go on behind it
            else:
                stop.set()
            return
        if rc == 2 or "HARNESS:" in so:
            if depth < 2:
                time.sleep(0.5)
                return self._chunk(a, lo, hi, stop, depth + 1)
            raise Harness("driver %s: %s" % (a["name"], so[-600:] + err[-300:]))
        # a crash or a hang, of which the case is known
        hang = rc == 12 or to or rc == -signal.SIGKILL
        san = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion[^\n]*failed[^\n]*|WARNING: ThreadSanitizer: [^\n]*|Invalid (?:read|write)[^\n]*|uninitialised[^\n]*)", err)
        key = "hang" if hang else ("sanitizer" if rc == 77 else "crash")
        detail = "%s in case %d after: %s" % ("no progress" if hang else "exit status %s" % rc, cas, what)
        if san:
            detail += "; " + san.group(1)
        m = re.search(r"#\d+ 0x[0-9a-f]+ in (shr_\w+|bw_\w+|\w+) [^\n]*/(src|lib)/", err)
        if m:
            detail += "; in " + m.group(1)
        rp.update(key=key, detail=detail, report=err[-6000:])
        # confirm by running that case again
        again = 0
        for _ in range(2 if hang else 1):
            rc2, res2, *_x = self._exec(a, cas, cas + 1)
            if rc2 not in (0, 2):
                again += 1
                break
        if again or not hang:
            if again and rc2 == 10 and res2 and "violation" in res2:
                v = res2["violation"]
                rp.update(key=v["key"], detail=v["detail"], config=v["config"], ops=v["ops"])
                key, detail = v["key"], v["detail"]
            if not again and key == "crash" and rc < 0 and -rc in (signal.SIGKILL, signal.SIGTERM):
                again = False
            elif not again and depth < 1 and rc not in (77, -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE):
                return self._chunk(a, lo, hi, stop, depth + 1)
            else:
                self.violation(key, detail, rp)
                stop.set()
                return
        with self.lock:
            self.inconclusive.append(detail)
        if depth < 2:
            return self._chunk(a, lo, hi, stop, depth + 1)
        raise Harness("inconclusive: " + detail)

    # -- verdict
    def is_known(self, key, detail):
        return any(k["key"] == key and re.search(k["match"], detail) for k in self.known)

    def finish(self, level, rule, evaluations, distinct, assumptions, min_eval=1):
        """evaluations, distinct: names of counts / sets to add up"""
        shutil.rmtree(self.dir, ignore_errors=True)
        tot = lambda names, f: sum(f(n) for n in names)
        ev = tot(evaluations, lambda n: sum(v for k, v in self.counts.items() if re.fullmatch(n, k)))
        di = tot(distinct, lambda n: sum(len(v) for k, v in self.distinct.items() if re.fullmatch(n, k)))
        new, printed = [], set()
        for key, detail, rp in self.violations:
            for k in self.known:
                if k["key"] == key and re.search(k["match"], detail):
                    if k["text"] not in printed:
                        printed.add(k["text"])
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
                    break
            else:
                new.append((key, detail, rp))
        cov = dict(evaluations=ev, distinct_nontrivial=di, rule=rule, samples=self.samples,
                   counts=dict(sorted(self.counts.items())),
                   distinct={k: len(v) for k, v in sorted(self.distinct.items())}, stages=self.stages)
        if self.inconclusive:
            cov["inconclusive_then_rerun"] = self.inconclusive
        evd = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        p = os.path.join(OUT, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(evd, f, indent=1)
        os.rename(p + ".tmp", p)
        if new:
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            key, detail, rp = new[0]
            rp = dict(rp or {}, property=self.prop, key=key, detail=detail)
            f = os.path.join(OUT, "replays", "%s-%s-%d.json" % (self.prop, re.sub(r"\W+", "_", key), self.seed))
            with open(f, "w") as fh:
                json.dump(rp, fh, indent=1)
            print("%s: %s" % (key, detail[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
            return 1
        if ev < min_eval or di < 1:
            print("inconclusive: only %d evaluations, %d distinct" % (ev, di))
            return 3
        print("%s held on %d evaluations (%d distinct), %.1f s" % (self.prop, ev, di, time.time() - self.t0))
        return 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), match=m.group(3), text=m.group(4).strip()))
    return out
