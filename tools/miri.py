"""C21: ub/ enumerates reachable states and lays transition tours through them (natively), then the
crate under test executes them in Miri, which stops at the first undefined behaviour."""
import hashlib, json, os, queue, re, resource, shutil, subprocess, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORKERS = 8
MANIFEST = os.path.join(HERE, "ub", "Cargo.toml")
# panics are caught by the histories and leaks after them are allowed; what a run leaks otherwise is C09's business
BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
MODELS = {"tree": BASE + " -Zmiri-tree-borrows", "none": BASE + " -Zmiri-disable-stacked-borrows"}


def target(n):
    return os.path.join(HERE, "target", f"ub-n{n}")


def env_of(n, miri=None):
    env = dict(os.environ, RUSTFLAGS="" if n == 64 else f'--cfg sweep_verif --cfg sweep_verif_n="{n}"', CARGO_TARGET_DIR=target(n), CARGO_TERM_COLOR="never")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env.pop("MIRIFLAGS", None)
    if miri:
        env["MIRIFLAGS"] = MODELS[miri]
    return env


def src_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(HERE, "ub", "src")):
        for d, ds, ff in os.walk(top):
            ds.sort()
            for f in sorted(ff):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), "rb").read())
    for f in (os.path.join(REPO, "Cargo.toml"), MANIFEST):
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build(n):
    from common import Broken
    t = target(n)
    os.makedirs(t, exist_ok=True)
    stamp = os.path.join(t, "src.sha256")
    sh = src_hash()
    if (open(stamp).read() if os.path.exists(stamp) else "") != sh:
        for d, ds, _ in os.walk(t):
            if os.path.basename(d) == ".fingerprint":
                for x in ds:
                    if x.startswith(("sweep", "ub-")):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds.clear()
    for cmd, miri in ((["cargo", "build", "--release"], None), (["cargo", "+nightly", "miri", "run"], "none")):
        r = subprocess.run(cmd + ["--offline", "--manifest-path", MANIFEST] + (["--", "build"] if miri else []), env=env_of(n, miri),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        if r.returncode:
            raise Broken(f"ub does not build for node capacity {n}:\n{r.stdout[-6000:]}")
    with open(stamp, "w") as f:
        f.write(sh)


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def miri(n, model, args, **kw):
    return subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", MANIFEST, "--"] + args, env=env_of(n, model),
                            text=True, errors="replace", preexec_fn=_limits, start_new_session=True, **kw)


def verdict(err):
    """the undefined behaviour Miri reports, or None"""
    m = re.search(r"^error: Undefined Behavior: (.*)$", err, re.M)
    if m:
        at = re.search(r"^\s*--> (\S*/repo/\S+|src/\S+)", err[m.end():], re.M)
        return "undefined behaviour: " + m[1].strip() + (f" at {at[1]}" if at else "")
    m = re.search(r"^error: (memory leaked|abnormal termination: .*|deadlock.*|.*data race.*)$", err, re.M | re.I)
    return m[1] if m and "leak" not in m[1] else None


def run_one(n, model, case, timeout=900):
    """(message or None, history shown)"""
    from common import Broken
    p = miri(n, model, ["one"] + case.split(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, ""
    shown = re.search(r"^history (.*)$", o, re.M)
    types = re.search(r"^types (.*)$", o, re.M)
    shown = (f"[{types[1]}] " if types else "") + (shown[1] if shown else "")
    v = verdict(e)
    if v:
        steps = re.findall(r"^step (\d+)", o, re.M)
        return v + (f" (in step {steps[-1]} of the history, counted from 0)" if steps else " (as the container is dropped)"), shown
    if p.returncode not in (0, 101):
        raise Broken(f"miri ended with {p.returncode}: {o[-800:]} {e[-2500:]}")
    return None, shown


def replay(f, t):
    n = int(t["n"])
    build(n)
    m, shown = run_one(n, t["model"], t["ops"])
    print("case:", shown)
    print("FAIL " + m if m else "PASS", flush=True)
    return 1 if m else 0


def _write(prop, n, model, case, msg, shown):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = f"property {prop}\nbin c21\nn {n}\nmodel {model}\nops {case}\n# history: {shown}\n# {msg}\n"
    f = os.path.join(d, f"{prop}-n{n}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.replay")
    with open(f, "w") as fh:
        fh.write(body)
    return f


def shorten(n, model, case, msg):
    """drop what comes after the failing step"""
    m = re.search(r"in step (\d+) of", msg)
    if m:
        w = case.split()
        return " ".join(w[:int(m[1]) + 2])
    return case


class Pool:
    def __init__(self, n, cases, end, thorough):
        self.n, self.end, self.thorough = n, end, thorough
        # histories of panics are long and make a new tree for each; where time is short they are left to the workers without an aliasing model
        self.q = queue.SimpleQueue()
        self.first = queue.SimpleQueue()
        for c in cases:
            (self.first if c[0] == "4" else self.q).put(c)
        self.lock = threading.Lock()
        self.bad = None
        self.err = None
        self.done = self.steps = self.panicked = self.skipped = 0
        self.by_model = {"tree": 0, "none": 0}
        self.times = []

    def take(self, model):
        for q in ([self.first, self.q] if model in ("none", "all") or self.thorough else [self.q]):
            try:
                return q.get_nowait()
            except queue.Empty:
                pass
        return None

    def stop(self):
        return self.bad is not None or self.err is not None

    def worker(self, model):
        from common import Broken
        errf = os.path.join(target(self.n), f"err-{os.getpid()}-{threading.get_ident()}")
        try:
            with open(errf, "w") as ef:
                p = miri(self.n, model, ["run"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=ef, bufsize=1)
            # a case that does not come back (slow, or looping for reasons other properties judge) ends the worker
            case = None
            kill = threading.Timer(max(5.0, self.end - time.time() + 100), lambda: os.killpg(p.pid, 9))
            kill.daemon = True
            kill.start()
            t0 = time.time()
            while True:
                line = p.stdout.readline()
                if line == "panicked\n":
                    with self.lock:
                        self.panicked += 1
                    continue
                if line == "next\n":
                    if case is not None:
                        with self.lock:
                            self.done += 1
                            self.steps += case.count(" ")
                            self.by_model[model] += 1
                            self.times.append((time.time() - t0, case))
                    case = None
                    if self.stop():
                        break
                    case = self.take(model)
                    if case is None:
                        break
                    if time.time() > self.end:
                        with self.lock:
                            self.skipped += 1
                        case = None
                        while self.take("all") is not None:
                            self.skipped += 1
                        break
                    t0 = time.time()
                    p.stdin.write(case + "\n")
                    p.stdin.flush()
                    continue
                if line == "":
                    p.wait()
                    e = open(errf, errors="replace").read()
                    v = verdict(e)
                    with self.lock:
                        if v:
                            if self.bad is None:
                                self.bad = (model, case, v)
                        elif time.time() > self.end + 90:
                            self.skipped += 1
                        elif self.err is None and not self.stop():
                            self.err = f"miri ended with {p.returncode} on case [{case}]: {e[-3000:]}"
                    break
            kill.cancel()
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
        except Exception as x:  # noqa: BLE001
            self.err = self.err or repr(x)
        finally:
            if os.path.exists(errf):
                os.unlink(errf)


def check(prop, tier, opt):
    from common import Broken
    from concurrent.futures import ThreadPoolExecutor
    ns = [int(x) for x in opt["n"].split(",")] if "n" in opt else ([4, 64] if tier == "quick" else [4, 8, 64])
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(build, ns))
    budget = float(opt.get("budget", 420 if tier == "quick" else 4 * 3600))
    t00 = time.time()
    per, samples, states, edges, steps, done, exhaustive = [], [], 0, 0, 0, 0, True
    for i, n in enumerate(ns):
        f = os.path.join(target(n), f"cases-{tier}-{os.getpid()}")
        try:
            # should the crate fail natively while states are enumerated, what needs no enumeration is still run
            for mode in ([], ["plain"]):
                try:
                    r = subprocess.run([os.path.join(target(n), "release", "ub-mc"), "gen", f, tier] + mode, capture_output=True, text=True, errors="replace", preexec_fn=_limits, timeout=100)
                except subprocess.TimeoutExpired:
                    continue
                if r.returncode == 0:
                    break
            else:
                raise Broken(f"no histories ({r.returncode}): {r.stderr[-2000:]}")
            lines = open(f).read().splitlines()
        finally:
            if os.path.exists(f):
                os.unlink(f)
        st, ed, complete = map(int, lines[0].split())
        cases = []
        for l in lines[1:]:
            kinds, _, ops = l.partition(" ")
            cases += [f"{k} {ops}" for k in kinds]
        # longest first, so that the end of the run is not one worker's
        cases.sort(key=lambda c: -len(c))
        t0 = time.time()
        left = budget - (t0 - t00)
        end = t0 + (left if i == len(ns) - 1 else left * 0.75)
        pool = Pool(n, cases, end, tier != "quick")
        models = ["tree"] * WORKERS if tier != "quick" else ["tree", "none", "none", "none"] * (WORKERS // 4)
        ts = [threading.Thread(target=pool.worker, args=(m,)) for m in models]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if pool.bad:
            model, case, v = pool.bad
            m, shown = run_one(n, model, case)
            if m:
                short = shorten(n, model, case, m)
                if short != case:
                    m2, shown2 = run_one(n, model, short)
                    if m2:
                        case, m, shown = short, m2, shown2
            fl = _write(prop, n, model, case, m or v + " (seen during the run only)", shown)
            return {"states": max(st, 1), "transitions": max(pool.steps, 1), "traces_validated_against_impl": max(pool.done, 1), "samples": ["(stopped at the first violation)"],
                    "exhaustive": False, "explanation": "stopped at the first violation"}, (fl, m or v, shown)
        if pool.err:
            raise Broken(pool.err)
        states += st
        edges += ed
        steps += pool.steps
        done += pool.done
        exhaustive &= bool(complete) and pool.skipped == 0
        for c in cases[len(cases) // 3::max(1, len(cases) // 3)][:2]:
            o = subprocess.run([os.path.join(target(n), "release", "ub-mc"), "show"] + c.split()[1:40], capture_output=True, text=True).stdout.strip()
            samples.append(f"[capacity {n}, types {c[0]}] {o[:400]}")
        if os.environ.get("MC_TIMES"):
            for t, c in sorted(pool.times, reverse=True)[:40]:
                print(f"{t:.1f} s  {c[:150]}")
        per.append({"node_capacity": n, "reachable_states": st, "transitions_toured": ed, "histories": len(cases), "histories_run": pool.done, "histories_skipped": pool.skipped,
                    "operations_interpreted": pool.steps, "histories_that_panicked": pool.panicked, "by_aliasing_model": pool.by_model, "wall_s": round(time.time() - t0, 1)})
    cov = {
        "states": max(states, done), "transitions": max(edges, steps), "traces_validated_against_impl": done, "samples": samples, "exhaustive": exhaustive,
        "reachable_states": states, "transitions_toured": edges, "operations_interpreted": steps, "explored": per, "node_capacities": ns,
        "rule": "every history is interpreted by Miri on the crate's own MIR; states counts reachable tree shapes or histories, whichever is more, transitions the operations interpreted",
        "explanation": "tours through every transition between reachable tree states of capacity 4, builder x position x drain families at 4 and 64, every split of consumed copies, panics of every call into user code "
                       "at trees about to split, merge or shrink; each run interpreted with all of Rust's validity, initialisation, bounds, provenance and liveness rules checked at every step, and in a quarter of the workers "
                       "(quick) or all (thorough) the Tree Borrows aliasing rules",
    }
    return cov, None
