"""Exhaustive exploration driver: enumerates the cases of one check over several worker processes, confirms every
violation in fresh processes, writes replay files and the evidence file."""
import collections, hashlib, importlib, json, mmap, os, pickle, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.environ.get("MC_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")


class Fail(Exception):
    """The property does not hold in this case."""


class HarnessError(Exception):
    """The machinery could not run the case."""


class CaseTimeout(BaseException):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


class Ctx:
    """What a case may use: a scratch directory and counters."""

    def __init__(self, base, tier):
        self.base, self.tier = base, tier
        self.shared = None
        self.outcomes = collections.Counter()
        self.counts = collections.Counter()
        self.evals = self.distinct = 0
        self.stop = False
        self.last = self.slowest = self.rearm = self.beat = None
        self.slowest = 0
        os.makedirs(base, exist_ok=True)
        self.dir = os.path.join(base, "c")
        os.makedirs(self.dir, exist_ok=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def outcome(self, label):
        self.outcomes[label] += 1

    def count(self, name, n=1):
        self.counts[name] += n

    def ev(self, n=1, distinct=None):
        """n further executions inside this case (called before they start), all distinct unless stated otherwise.
        Starts the time limit of an execution anew."""
        now = time.monotonic()
        if self.last and now - self.last > self.slowest:
            self.slowest = now - self.last
        self.last = now
        if self.rearm:
            signal.setitimer(signal.ITIMER_REAL, self.rearm, 2)
            if self.beat:
                self.beat(now)
        self.evals += n
        self.distinct += n if distinct is None else distinct

    def clean(self):
        with os.scandir(self.dir) as it:
            left = list(it)
        for e in left:
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                try:
                    os.unlink(e.path)
                except OSError:
                    pass


class limit:
    """Fails if the block takes longer, even if the code in it swallows exceptions. Ends the case's own time limit."""

    def __init__(self, seconds, what):
        self.seconds, self.what, self.fired = seconds, what, False

    def _alarm(self, sig, frm):
        self.fired = True
        raise CaseTimeout()

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 0.5)

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        signal.setitimer(signal.ITIMER_REAL, 60, 2)
        if self.fired:
            raise Fail("%s: blocked for %d s" % (self.what, self.seconds))


def from_repo(exc):
    """Was the exception raised by (or through) the code under test?"""
    tb = exc.__traceback__
    while tb:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def tb_text(exc, limit=1800):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-limit:]


def run_case(mod, case, ctx, timeout):
    """Returns None or a failure message."""
    fired = []

    def on_alarm(sig, frm):
        fired.append(1)
        ctx.rearm = None
        raise CaseTimeout()
    ctx.last, ctx.rearm = time.monotonic(), timeout
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 2)
    try:
        try:
            mod.run(case, ctx)
            if fired:  # the code under test swallowed the exception
                raise CaseTimeout()
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            ctx.rearm = None
            signal.signal(signal.SIGALRM, old)
            cleanup_after_case()
    except Fail as e:
        return str(e)
    except CaseTimeout:
        return "no result within %d s (hang)" % timeout
    except KeyboardInterrupt as e:
        return "a stray KeyboardInterrupt escaped\n" + tb_text(e)
    except HarnessError:
        raise
    except BaseException as e:
        if from_repo(e):
            return "unexpected %s: %s\n%s" % (type(e).__name__, e, tb_text(e))
        raise
    finally:
        for _ in range(3):  # a late alarm must not hit the clean-up
            try:
                ctx.clean()
                break
            except CaseTimeout:
                pass


def cleanup_after_case():
    from mc import vdev
    if vdev.available:
        vdev.reset()


def setup_imports():
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # loaded once here instead of in every forked command; certificates are not needed
    os.environ["SSL_CERT_FILE"] = "/dev/null"
    os.environ["SSL_CERT_DIR"] = "/nonexistent"
    import http.client, urllib.request, netrc, ssl  # noqa
    try:
        import gpg  # noqa
    except ImportError:
        pass
    import logging
    lg = logging.getLogger()
    if not lg.handlers:
        lg.addHandler(logging.NullHandler())


def load(prop):
    sys.path.insert(0, VERIF)
    return importlib.import_module("checks." + prop.lower())


def worker(mod, prop, tier, k, n, base, hb, out, deadline, timeout):
    from mc import vdev
    if vdev.available:
        vdev.own_log()
    ctx = Ctx(os.path.join(base, "w%d" % k), tier)
    # adopt what the code under test leaves behind, so that it can be collected
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    import faulthandler
    stacks = open(os.path.join(base, "stack%d" % k), "w")
    faulthandler.register(signal.SIGUSR2, file=stacks, all_threads=True)
    if hasattr(mod, "worker_init"):
        mod.worker_init(ctx)
    # forked commands need not look through what is there already
    import gc
    gc.collect()
    gc.freeze()
    fails, done, truncated, hashes, samples, errs = [], 0, False, set(), [], []
    known = known_findings(prop)
    for idx, case in enumerate(mod.cases(tier)):
        if idx % n != k:
            continue
        if time.monotonic() > deadline:
            truncated = True
            break
        struct.pack_into("=qd", hb, k * 16, idx, time.monotonic())
        ctx.beat = lambda now: struct.pack_into("=qd", hb, k * 16, idx, now)
        d0, e0 = ctx.distinct, ctx.evals
        try:
            msg = run_case(mod, case, ctx, timeout)
        except Exception as e:
            msg = None
            try:
                msg = run_case(mod, case, ctx, timeout)
            except Exception as e:
                errs.append((case, tb_text(e)))
                if len(errs) > 3:
                    break
        if ctx.evals == e0:
            ctx.evals += 1
            key = hashlib.md5(json.dumps(case, sort_keys=True).encode()).digest()
            if key not in hashes:
                hashes.add(key)
                ctx.distinct += 1
        done += 1
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        if len(samples) < 2 or (done % 997 == 0 and len(samples) < 4):
            samples.append(case)
        if msg:
            fails.append((idx, case, msg))
            if not any(m in msg for m, _ in known):
                # a few violations over all workers are enough
                hb[16 * n + k] = min(hb[16 * n + k] + 1, 255)
            if sum(hb[16 * n:17 * n]) >= 3:
                break
        elif any(hb[16 * n:17 * n]) and sum(hb[16 * n:17 * n]) >= 3:
            break
    struct.pack_into("=qd", hb, k * 16, -2, time.monotonic())
    with open(out, "wb") as f:
        pickle.dump(dict(done=done, evals=ctx.evals, distinct=ctx.distinct, fails=fails, truncated=truncated,
                         outcomes=ctx.outcomes, counts=ctx.counts, samples=samples, errs=errs, slowest=ctx.slowest), f)


def scratch_root():
    for d in ("/dev/shm", os.environ.get("TMPDIR"), "/tmp"):
        try:
            if d and os.path.isdir(d) and os.statvfs(d).f_bavail * os.statvfs(d).f_frsize > 2 << 30:
                return tempfile.mkdtemp(prefix="mc.", dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="mc.")


def known_findings(prop):
    """Entries "known: property=<id> match=<text>": a violation whose message contains the text is a known finding."""
    res = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % prop) and " match=" in line:
                head, match = line.split(" match=", 1)
                res.append((match, line))
    except OSError:
        pass
    return res


def diagnose(base, pid, k):
    """Says what a worker was doing that did not even react to its alarm."""
    try:
        os.kill(pid, signal.SIGUSR2)
        time.sleep(0.5)
        print("note: worker %d hangs\n%s" % (k, open(os.path.join(base, "stack%d" % k)).read()[-3000:]))
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    st = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
                    if int(d) == pid or int(st[2]) == pid:
                        print("  process %s parent %s state %s in %s: %s" % (d, st[1], st[0], open("/proc/%s/wchan" % d).read(),
                              open("/proc/%s/cmdline" % d).read().replace("\0", " ")[:200]))
                except OSError:
                    pass
    except Exception as e:
        print("note: %s" % e)


def kill_tree(pids):
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass


def main(argv):
    prop = argv[0].upper()
    # whatever the check was started with
    signal.pthread_sigmask(signal.SIG_SETMASK, ())
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for s in (signal.SIGCHLD, signal.SIGHUP, signal.SIGTERM, signal.SIGALRM, signal.SIGQUIT, signal.SIGUSR1, signal.SIGUSR2, signal.SIGTSTP, signal.SIGTTOU):
        signal.signal(s, signal.SIG_DFL)
    os.umask(0o022)
    setup_imports()
    mod = load(prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    timeout = getattr(mod, "EXEC_TIMEOUT", 60)  # for one execution
    base = scratch_root()
    os.environ["TMPDIR"] = base
    tempfile.tempdir = base
    os.environ["HOME"] = os.path.join(base, "home")
    os.mkdir(os.environ["HOME"])
    try:
        if len(argv) > 2 and argv[1] in ("--replay", "--one"):
            case = json.load(open(argv[2]))["case"] if argv[1] == "--replay" else json.loads(argv[2])
            from mc import vdev
            if vdev.available:
                vdev.own_log()
            if hasattr(mod, "prepare"):
                mod.prepare(tier, base)
            ctx = Ctx(os.path.join(base, "w0"), tier)
            if hasattr(mod, "worker_init"):
                mod.worker_init(ctx)
            msg = run_case(mod, case, ctx, timeout)
            print("REPLAY %s: %s" % (prop, ("violated: " + msg) if msg else "holds"), dict(ctx.outcomes), flush=True)
            return 1 if msg else 0
        return explore(mod, prop, tier, seed, timeout, base)
    finally:
        if hasattr(mod, "finish"):
            try:
                mod.finish()
            except Exception:
                pass
        shutil.rmtree(base, ignore_errors=True)


def explore(mod, prop, tier, seed, timeout, base):
    t0 = time.monotonic()
    budget = getattr(mod, "BUDGET", {}).get(tier, 600 if tier == "quick" else 840)
    deadline = t0 + budget
    if hasattr(mod, "prepare"):
        mod.prepare(tier, base)
    n = getattr(mod, "WORKERS", min(8, os.cpu_count() or 4))
    hb = mmap.mmap(-1, 17 * n)
    outs = [os.path.join(base, "out%d" % k) for k in range(n)]
    sys.stdout.flush()
    pids = {}

    def spawn(k):
        struct.pack_into("=qd", hb, k * 16, -1, time.monotonic())
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            rc = 3
            try:
                worker(mod, prop, tier, k, n, base, hb, outs[k], deadline, timeout)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        pids[pid] = k

    for k in range(n):
        spawn(k)
    hung, dead, again = [], [], {}
    while pids:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p:
            k = pids.pop(p, None)
            if k is not None:
                kill_tree([p])
                if not os.path.exists(outs[k]) and k not in [h[0] for h in hung]:
                    idx = struct.unpack_from("=qd", hb, k * 16)[0]
                    if k not in again and time.monotonic() - t0 < 400:
                        # a worker that dies or hangs is started once more: a real cause will strike again
                        print("note: worker %d ended at case %d (status %d), starting it again" % (k, idx, st))
                        again[k] = idx
                        shutil.rmtree(os.path.join(base, "w%d" % k), ignore_errors=True)
                        spawn(k)
                    else:
                        dead.append((k, st))
            continue
        time.sleep(0.02)
        now = time.monotonic()
        for p, k in list(pids.items()):
            idx, t = struct.unpack_from("=qd", hb, k * 16)
            if t <= 0 or now - t > timeout * 1.5 + 20:
                # the worker may be writing these numbers right now
                time.sleep(0.05)
                idx, t = struct.unpack_from("=qd", hb, k * 16)
            if t > 0 and now - t > timeout * 1.5 + 20 and idx >= 0:
                diagnose(base, p, k)
                if k in again or now - t0 >= 400:
                    hung.append((k, idx))
                kill_tree([p])
    tot = collections.Counter()
    outcomes, counts, samples, fails, errs = collections.Counter(), collections.Counter(), [], [], []
    truncated = bool(dead) or bool(hung)
    slowest = 0
    for o in outs:
        if os.path.exists(o):
            r = pickle.load(open(o, "rb"))
            for f in ("done", "evals", "distinct"):
                tot[f] += r[f]
            outcomes.update(r["outcomes"])
            counts.update(r["counts"])
            samples += r["samples"]
            fails += r["fails"]
            errs += r["errs"]
            slowest = max(slowest, r["slowest"])
            truncated |= r["truncated"]
    if hung or dead:
        want = {idx for _, idx in hung}
        for k, st in dead:
            want.add(struct.unpack_from("=qd", hb, k * 16)[0])
        for i, c in enumerate(mod.cases(tier)):
            if i in want:
                fails.append((i, c, "the process executing this case died or hung"))
    # those that take long to confirm come last
    fails.sort(key=lambda f: ("(hang)" in f[2] or "died or hung" in f[2], f[0]))
    # Confirm each violation in fresh processes: the same case must fail again.
    rdir = os.path.join(VERIF, "replay", prop)
    known = known_findings(prop)
    reported, suppressed, unconfirmed = [], [], []
    for idx, case, msg in fails[:10]:
        hit = [l for m, l in known if m in msg]
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, h + ".json")
        json.dump(dict(property=prop, case=case, message=msg), open(path, "w"), indent=1)
        ok, tries = 0, 0
        while tries < 3 and ok < 2 and time.monotonic() < t0 + 860:
            tries += 1
            try:
                r = subprocess.run([os.path.join(VERIF, "check"), prop, "--replay", path], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=max(20, min(400, t0 + 870 - time.monotonic())), stdin=subprocess.DEVNULL,
                                   start_new_session=True)
                ok += r.returncode == 1 and b"violated:" in r.stdout
            except subprocess.TimeoutExpired:
                ok += 1
            if not ok and tries == 2:
                break
        if ok < (2 if tries > 1 else 1):
            unconfirmed.append((path, msg))
            continue
        if hit:
            suppressed.append((hit[0], msg))
            continue
        reported.append((path, case, msg))
        if len(reported) >= 3 or time.monotonic() - t0 > 240:
            break
    for line, msg in suppressed:
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, wall_s=round(time.monotonic() - t0, 2),
              violations=len(reported), assumptions=list(getattr(mod, "ASSUMPTIONS", [])))
    cov = dict(evaluations=tot["evals"], distinct_nontrivial=tot["distinct"], rule=mod.RULE,
               samples=samples[:10] or ["none"], exhaustive=not truncated and not fails and not errs, cases=tot["done"],
               outcomes={str(k): v for k, v in sorted(outcomes.items(), key=str)}, counters=dict(counts),
               bounds=mod.BOUNDS.get(tier) if isinstance(getattr(mod, "BOUNDS", None), dict) else None)
    if hasattr(mod, "coverage"):
        cov.update(mod.coverage(tot, outcomes, counts))
    if unconfirmed:
        cov["unconfirmed"] = [m[:300] for _, m in unconfirmed]
    ev["coverage"] = {k: v for k, v in cov.items() if v is not None}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for path, case, msg in reported:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case: %s\n  %s" % (json.dumps(case)[:600], msg.replace("\n", "\n  ")[:2500]))
    for path, msg in unconfirmed:
        print("note: not reproducible, not reported: %s" % msg[:2000])
    for case, tb in errs[:3]:
        print("HARNESS ERROR in case %s\n%s" % (json.dumps(case)[:500], tb))
    print("%s %s: %d cases, %d executions, %d distinct, outcomes %s, %s, %.1f s" % (
        prop, tier, tot["done"], tot["evals"], tot["distinct"], dict(outcomes),
        "complete" if cov["exhaustive"] else "NOT complete", time.monotonic() - t0), "slowest %.2f s" % slowest, flush=True)
    if reported:
        return 1
    if errs or (dead and not fails):
        return 2
    if not tot["done"]:
        print("nothing was explored")
        return 2
    return 0
