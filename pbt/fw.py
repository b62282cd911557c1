"""Common machinery: running pa2 and the driver on generated cases, deciding hangs, workers, shrinking, evidence, replay."""
import hashlib, importlib, json, multiprocessing, os, resource, select, shutil, signal, subprocess, sys, tempfile, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOBODY = 65534
TICK = os.sysconf("SC_CLK_TCK")


class Violation(Exception):
    pass


class StopNow(BaseException):
    pass


class Inconclusive(Exception):
    """Nothing can be said about this case (for example too slow, without evidence of a hang)."""


# ---------------------------------------------------------------------------------------------- JSON with bytes

def enc(o):
    if isinstance(o, bytes):
        return {"__b": o.hex()}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if isinstance(o, str):
        try:
            o.encode("utf8")
        except UnicodeEncodeError:
            return {"__s": o.encode("utf8", "surrogatepass").hex()}
    return o


def dec(o):
    if isinstance(o, dict):
        if set(o) == {"__b"}:
            return bytes.fromhex(o["__b"])
        if set(o) == {"__s"}:
            return bytes.fromhex(o["__s"]).decode("utf8", "surrogatepass")
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def canon(case):
    return json.dumps(enc(case), sort_keys=True, ensure_ascii=True)


def short(b, n=300):
    r = repr(b)
    return r if len(r) <= n else r[: n // 2] + " ...(%d)... " % len(b) + r[-n // 2:]


# ---------------------------------------------------------------------------------------------- processes

def tree(pid):
    """The process and its descendants (only ever started from `pid`, which we started)."""
    todo, seen = [pid], []
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.append(p)
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/children" % (p, t)) as f:
                    todo += [int(x) for x in f.read().split()]
        except OSError:
            pass
    return seen


def snapshot(pid):
    """(everything asleep, cpu ticks used) of the tree of a process."""
    asleep, cpu = True, 0
    for p in tree(pid):
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/stat" % (p, t)) as f:
                    s = f.read().rsplit(")", 1)[1].split()
                if s[0] not in "SZTtXI":
                    asleep = False
                cpu += int(s[11]) + int(s[12])
        except OSError:
            pass
    return asleep, cpu


class Result:
    __slots__ = ("rc", "out", "err", "hang", "dur", "left")

    def ok(self):
        return self.rc == 0 and not self.hang


class Ctx:
    def __init__(self, built, base, quickhang=False):
        self.pa2, self.hp, self.driver_bin = built["pa2"], built["hp"], built["driver"]
        self.base = base
        self.n = 0
        self.labels = Counter()
        self.case_labels = set()
        self._driver = None
        self.dir = None
        # After the first confirmed hang, shrinking does not have to be so patient
        self.patience = 25.0
        self.hung = 0
        self.runs = 0

    # -- per case
    def begin(self):
        self.n += 1
        self.dir = os.path.join(self.base, "c%d" % self.n)
        os.mkdir(self.dir)
        self.case_labels = set()
        return self.dir

    def end(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None

    def note(self, *labels):
        self.case_labels.update(labels)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, data):
        if isinstance(data, str):
            data = data.encode("utf8")
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def read(self, name, default=None):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return default

    def exists(self, name):
        return os.path.exists(self.path(name))

    # -- running pa2
    def spawn(self, args, stdin=b"", env=None, cwd=None, stdout=None, stderr=None, exe=None, nofile=None):
        """stdin: bytes, or a file descriptor, or None for /dev/null. stdout/stderr: descriptor or None for a file."""
        self.runs += 1
        k = self.runs
        o = self.path(".out%d" % k)
        e = self.path(".err%d" % k)
        close = []
        if isinstance(stdin, bytes):
            if stdin:
                p = self.path(".in%d" % k)
                with open(p, "wb") as f:
                    f.write(stdin)
                stdin = os.open(p, os.O_RDONLY)
            else:
                stdin = os.open("/dev/null", os.O_RDONLY)
            close.append(stdin)
        elif stdin is None:
            stdin = os.open("/dev/null", os.O_RDONLY)
            close.append(stdin)
        if stdout is None:
            stdout = os.open(o, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            close.append(stdout)
        if stderr is None:
            stderr = os.open(e, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            close.append(stderr)
        full = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8"} if env is None else env
        try:
            p = subprocess.Popen([exe or self.pa2] + list(args), executable=exe or self.pa2, stdin=stdin, stdout=stdout,
                                 stderr=stderr, cwd=cwd or self.dir, env=full, start_new_session=True,
                                 preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))) if nofile else None)
        finally:
            for c in close:
                os.close(c)
        p.files = (o, e)
        p.began = time.monotonic()
        return p

    def watch_files(self, p):
        tot = []
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                try:
                    st = os.stat(os.path.join(d, f))
                    tot.append((f, st.st_size))
                except OSError:
                    pass
        return sorted(tot)

    def wait(self, p, busy=None, limit=240.0):
        """Waits for the end of pa2, deciding positively whether it hangs: over `patience` seconds nothing in the tree of
        processes ran or grew. `busy()` may say that something outside (the harness) still has work to do."""
        r = Result()
        hang = False
        # It may have ended, and been seen to, already
        fd = os.pidfd_open(p.pid) if p.poll() is None else None
        try:
            po = select.poll()
            if fd is not None:
                po.register(fd, select.POLLIN)
            idle_since, last = None, None
            first = True
            while fd is not None:
                if po.poll(3000 if first else 500):
                    break
                first = False
                now = time.monotonic()
                asleep, cpu = snapshot(p.pid)
                sig = (cpu // 5, self.watch_files(p))
                if not asleep or busy and busy() or sig != last:
                    idle_since, last = None, sig
                elif idle_since is None:
                    idle_since = now
                elif now - idle_since > self.patience:
                    hang = True
                    break
                if now - p.began > limit:
                    hang = None
                    break
        finally:
            if fd is not None:
                os.close(fd)
        r.dur = time.monotonic() - p.began
        if hang is not False:
            r.left = True
            self.kill(p)
        else:
            p.wait()
            r.left = self.group_alive(p)
            self.kill(p)
        r.rc = p.returncode
        r.hang = hang
        if hang is None:
            raise Inconclusive("no end within %d s, but not asleep either" % limit)
        r.out = self._slurp(p.files[0])
        r.err = self._slurp(p.files[1])
        if hang:
            self.hung += 1
            raise Violation("hang: pa2 and all programs asleep without any progress for %d s (stderr %s)" % (self.patience, short(r.err)))
        if b"panicked at" in r.err or r.rc < 0 or r.rc == 101:
            raise Violation("pa2 panicked or was killed: status %s, stderr %s" % (r.rc, short(r.err, 600)))
        return r

    def _slurp(self, p):
        try:
            with open(p, "rb") as f:
                return f.read()
        except OSError:
            return b""

    def group_alive(self, p):
        """Is a process which pa2 started, directly or not, still there (and not only a zombie)?"""
        for _ in range(3):
            try:
                os.killpg(p.pid, 0)
            except ProcessLookupError:
                return False
            except PermissionError:
                pass
            time.sleep(0.002)
        alive = False
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    if os.getpgid(int(d)) != p.pid:
                        continue
                    with open("/proc/%s/stat" % d) as f:
                        if f.read().rsplit(")", 1)[1].split()[0] not in "ZX":
                            alive = True
                except OSError:
                    pass
        return alive

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if p.returncode is None:
            p.wait()

    def pa2run(self, args, stdin=b"", **kw):
        limit = kw.pop("limit", 240.0)
        busy = kw.pop("busy", None)
        return self.wait(self.spawn(args, stdin=stdin, **kw), busy=busy, limit=limit)

    def process(self, config, stdin=b"", fmt="json", **kw):
        """Runs `pa2 process` on a configuration (a dict, or text)."""
        if not isinstance(config, (str, bytes)):
            config = json.dumps(config)
        self.write("pa2.cfg", config)
        return self.pa2run(["process", "--format", fmt, "--config", self.path("pa2.cfg")], stdin=stdin, **kw)

    # -- the driver
    def driver(self, req):
        for attempt in range(2):
            if self._driver is None or self._driver.poll() is not None:
                e = open(os.path.join(self.base, "driver.err"), "wb")
                self._driver = subprocess.Popen([self.driver_bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=e,
                                                cwd=self.base, start_new_session=True)
                e.close()
            d = self._driver
            try:
                d.stdin.write((json.dumps(req) + "\n").encode())
                d.stdin.flush()
                break
            except BrokenPipeError:
                self.stop_driver()
        idle, last, began = None, None, time.monotonic()
        po = select.poll()
        po.register(d.stdout.fileno(), select.POLLIN | select.POLLHUP)
        first = True
        while not po.poll(3000 if first else 500):
            first = False
            asleep, cpu = snapshot(d.pid)
            now = time.monotonic()
            sig = (cpu // 10, self.watch_files(None) if self.dir else None)
            if not asleep or sig != last:
                idle, last = None, sig
            elif idle is None:
                idle = now
            elif now - idle > self.patience + 10:
                self.stop_driver()
                self.hung += 1
                raise Violation("hang: the run makes no progress, everything asleep for %d s" % (self.patience + 10))
            if now - began > 300:
                self.stop_driver()
                raise Inconclusive("driver too slow")
        line = d.stdout.readline()
        if not line:
            self.stop_driver()
            with open(os.path.join(self.base, "driver.err"), "rb") as f:
                raise Violation("the library panicked or aborted: %s" % short(f.read()[-600:], 600))
        r = json.loads(line)
        if r.get("panic"):
            with open(os.path.join(self.base, "driver.err"), "rb") as f:
                raise Violation("the library panicked: %s" % short(f.read()[-600:], 600))
        return r

    def stop_driver(self):
        if self._driver is not None:
            self.kill(self._driver)
            for s in (self._driver.stdin, self._driver.stdout):
                try:
                    s.close()
                except OSError:
                    pass
            self._driver = None


# ---------------------------------------------------------------------------------------------- known findings

def known_findings(pid):
    """Lines "KNOWN-FINDING property=<id> key=<key> <what>" of known_findings.txt. A check gives a violation a key, which is
    the specific input or history; only an exact match is not reported as a violation."""
    r = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                if l.startswith("KNOWN-FINDING property=%s " % pid):
                    w = l.split(None, 3)
                    r[w[2][4:]] = w[3].strip()
    except FileNotFoundError:
        pass
    return r


# ---------------------------------------------------------------------------------------------- workers

def one(mod, case, ctx):
    """Runs one case: (violation message or None, nontrivial)."""
    ctx.begin()
    try:
        return None, bool(mod.run(case, ctx))
    except Violation as v:
        return str(v), True
    finally:
        ctx.end()


def drop_privileges():
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass


def worker(modname, index, nworkers, seed, tier, examples, built, base, conn, stop, deadline):
    try:
        os.umask(0o022)
        drop_privileges()
        os.environ["HOME"] = base
        resource.setrlimit(resource.RLIMIT_FSIZE, (512 << 20, 512 << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.chdir(base)
        _worker(modname, index, seed, tier, examples, built, base, conn, stop, deadline)
    except BaseException:
        conn.send({"crash": traceback.format_exc()})
    conn.close()


def _worker(modname, index, seed, tier, examples, built, base, conn, stop, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.configuration import set_hypothesis_home_dir
    set_hypothesis_home_dir(os.path.join(base, "hyp"))
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module("pbt." + modname)
    ctx = Ctx(built, base)
    st = {"evaluations": 0, "nontrivial": set(), "samples": [], "inconclusive": 0, "unconfirmed": [], "skipped": 0, "odd": []}
    labels = Counter()
    fail = {"best": None, "msg": None, "deadline": None, "reruns": 0}
    seen_unconfirmed = Counter()

    class Found(Exception):
        pass

    shrink_budget = 90 if tier == "quick" else 240

    def confirm(case, msg):
        """Does it fail again? Data dependent failures do at once, those that depend on the schedule may need some runs."""
        if msg.startswith("hang"):
            tries = 2
        else:
            tries = 12
        for _ in range(tries):
            try:
                m, _nt = one(mod, case, ctx)
            except Inconclusive:
                continue
            if m:
                return m
        return None

    def body(case):
        now = time.monotonic()
        if fail["best"] is not None:
            # Shrinking. Always let the smallest failing case fail, so that Hypothesis can finish.
            if now > fail["deadline"]:
                raise StopNow("shrink budget used")
        elif stop.is_set():
            raise StopNow("another worker found a violation")
        elif now > deadline:
            st["skipped"] += 1
            return
        try:
            msg, nt = one(mod, case, ctx)
        except Inconclusive as e:
            st["inconclusive"] += 1
            labels["INCONCLUSIVE " + str(e)] += 1
            if len(st["odd"]) < 3:
                st["odd"].append(enc(case))
            return
        if fail["best"] is None:
            st["evaluations"] += 1
            for l in ctx.case_labels:
                labels[l] += 1
            if nt:
                h = hashlib.sha1(canon(case).encode()).digest()
                st["nontrivial"].add(h)
                if len(st["samples"]) < 3 and len(canon(case)) < 3000 and (st["evaluations"] % 7 == 3):
                    st["samples"].append(enc(case))
        if msg is None:
            return
        if fail["best"] is None:
            m2 = confirm(case, msg)
            if m2 is None:
                cls = msg.split(":")[0][:40]
                seen_unconfirmed[cls] += 1
                st["unconfirmed"].append({"msg": msg, "case": enc(case)})
                if msg.startswith("hang") or seen_unconfirmed[cls] < 3:
                    return
                fail["rare"] = True
            stop.set()
            fail["deadline"] = time.monotonic() + shrink_budget
            fail["best"], fail["msg"] = case, m2 or msg
            if ctx.hung:
                ctx.patience = 8.0
            if fail.get("rare"):
                raise StopNow("rare failure, not shrunk")
        else:
            if len(canon(case)) <= len(canon(fail["best"])):
                fail["best"], fail["msg"] = case, msg
        raise Found(msg)

    test = given(mod.strategy(tier))(body)
    # index may be beyond what a fixed number of workers would use; the seed is a function of both
    test = hypothesis.seed(seed * 1000003 + index * 7919 + int(hashlib.sha1(mod.ID.encode()).hexdigest()[:6], 16))(test)
    test = settings(max_examples=examples, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.target, Phase.shrink],
                    print_blob=False, verbosity=hypothesis.Verbosity.quiet)(test)
    err = None
    try:
        for fixed in (mod.fixed(tier)[index::8] if hasattr(mod, "fixed") else []):
            body(fixed)
        test()
    except (Found, StopNow):
        pass
    except BaseException as e:
        if fail["best"] is None:
            err = traceback.format_exc()
    ctx.patience = 25.0
    if fail["best"] is not None and not fail.get("rare"):
        # The smallest case has to fail from scratch
        pass
    ctx.stop_driver()
    conn.send({"evaluations": st["evaluations"], "nontrivial": list(st["nontrivial"]), "samples": st["samples"], "labels": labels,
               "inconclusive": st["inconclusive"], "unconfirmed": st["unconfirmed"], "odd": st["odd"], "skipped": st["skipped"], "runs": ctx.runs,
               "fail": None if fail["best"] is None else {"case": enc(fail["best"]), "msg": fail["msg"], "rare": bool(fail.get("rare"))},
               "error": err})


def make_base():
    base = tempfile.mkdtemp(prefix="pa2pbt-")
    os.chmod(base, 0o755)
    if os.getuid() == 0:
        os.chown(base, NOBODY, NOBODY)
    return base


def stage(built, base):
    """The programs, where an unprivileged user can start them whatever the mode of /verif is."""
    b = os.path.join(base, "bin")
    os.mkdir(b)
    os.chmod(b, 0o755)
    r = dict(built)
    for k in ("pa2", "hp", "driver"):
        if built.get(k) and os.path.exists(built[k]):
            r[k] = os.path.join(b, k)
            shutil.copy2(built[k], r[k])
            os.chmod(r[k], 0o755)
    return r


def check(modname, tier, seed, only_examples=None):
    from . import build as B
    t0 = time.monotonic()
    mod = importlib.import_module("pbt." + modname)
    built = B.build(driver=getattr(mod, "DRIVER", False))
    tb = time.monotonic() - t0
    base = make_base()
    try:
        return _check(mod, modname, tier, seed, only_examples, stage(built, base), base, t0, tb)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _check(mod, modname, tier, seed, only_examples, built, base, t0, tb):
    nw = getattr(mod, "WORKERS", 8)
    total = only_examples or mod.EXAMPLES[tier]
    cap = 420.0 if tier == "quick" else 3 * 3600.0
    stop = multiprocessing.Event()
    deadline = time.monotonic() + cap
    procs = []
    for i in range(nw):
        wb = os.path.join(base, "w%d" % i)
        os.mkdir(wb)
        if os.getuid() == 0:
            os.chown(wb, NOBODY, NOBODY)
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(target=worker, args=(modname, i, nw, seed, tier, (total + nw - 1) // nw, built, wb, b, stop, deadline))
        p.start()
        b.close()
        procs.append((p, a))
    results, crashes = [], []
    hard = deadline + (330 if tier == "quick" else 1800)
    for p, a in procs:
        try:
            if a.poll(max(1, hard - time.monotonic())):
                r = a.recv()
                if "crash" in r:
                    crashes.append(r["crash"])
                else:
                    results.append(r)
            else:
                crashes.append("worker did not finish")
                p.kill()
        except EOFError:
            crashes.append("worker died")
        p.join(5)
        if p.is_alive():
            p.kill()
    for r in results:
        if r["error"]:
            crashes.append(r["error"])
    labels = Counter()
    nontrivial = set()
    samples = []
    for r in results:
        labels.update(r["labels"])
        nontrivial.update(r["nontrivial"])
        samples += r["samples"]
    fails = [r["fail"] for r in results if r["fail"]]
    known = known_findings(mod.ID)
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fails),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results), "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
            "samples": samples[:5], "classes": dict(sorted(labels.items())), "programs_run": sum(r["runs"] for r in results),
            "not_run_for_lack_of_time": sum(r["skipped"] for r in results), "inconclusive": sum(r["inconclusive"] for r in results),
            "failed_once_but_never_again": sum(len(r["unconfirmed"]) for r in results), "build_s": round(tb, 2),
            "source_hash": built["hash"],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only_examples is None:
        with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d program runs, %.1f s (build %.1f s)" % (
        mod.ID, tier, seed, ev["coverage"]["evaluations"], len(nontrivial), ev["coverage"]["programs_run"], ev["wall_s"], tb))
    for k, v in sorted(labels.items()):
        print("   %7d %s" % (v, k))
    for r in results:
        for u in r["unconfirmed"]:
            print("   failed once, in none of the reruns: %s\n      %s" % (u["msg"], json.dumps(u["case"])[:3000]))
    for r in results:
        for u in r["odd"]:
            print("   inconclusive: %s" % json.dumps(u)[:3000])
    for k, w in known.items():
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, w))
    if fails:
        best = min(fails, key=lambda f: (f["rare"], len(json.dumps(f["case"]))))
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (mod.ID, hashlib.sha1(canon(best["case"]).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "message": best["msg"], "case": best["case"]}, f, indent=1)
            f.write("\n")
        print("what failed: " + best["msg"])
        print("replay with: bash /verif/run.sh replay " + path)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        sys.stdout.flush()
        return 1
    if crashes:
        print("CHECK ERROR: " + "\n".join(crashes)[:6000])
        return 2
    if ev["coverage"]["distinct_nontrivial"] == 0:
        print("CHECK ERROR: no non-trivial case")
        return 2
    return 0


def replay(path, tries=10):
    from . import build as B
    with open(path) as f:
        j = json.load(f)
    modname = j["property"].lower()
    mod = importlib.import_module("pbt." + modname)
    built = B.build(driver=getattr(mod, "DRIVER", False))
    base = make_base()
    try:
        built = stage(built, base)
        a, b = multiprocessing.Pipe(False)

        def go():
            drop_privileges()
            os.environ["HOME"] = base
            ctx = Ctx(built, base)
            m = None
            for _ in range(tries):
                try:
                    m, _nt = one(mod, dec(j["case"]), ctx)
                except Inconclusive as e:
                    print("inconclusive: %s" % e)
                if m:
                    break
            ctx.stop_driver()
            b.send(m)

        p = multiprocessing.Process(target=go)
        p.start()
        b.close()
        try:
            m = a.recv()
        except EOFError:
            print("CHECK ERROR: replay crashed")
            return 2
        p.join()
        if m:
            print("what failed: " + m)
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
            return 1
        print("%s: does not fail in %d runs" % (mod.ID, tries))
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main(argv):
    multiprocessing.set_start_method("fork")
    if argv and argv[0] == "replay":
        return replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    n = int(argv[1]) if len(argv) > 1 else None
    return check(argv[0].lower(), tier, seed, n)

