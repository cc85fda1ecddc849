"""C06: builds conc/ (the crate under test with its memory accesses reported to the model-checking
runtime conc/rt.cpp), explores all scenarios in parallel shards, confirms failures by replay."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SHARDS = 8


def target(n):
    return os.path.join(HERE, "target", f"conc-n{n}")


def binary(n):
    return os.path.join(target(n), "release", "conc-mc")


def build(n):
    from common import Broken
    t = target(n)
    os.makedirs(t, exist_ok=True)
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(HERE, "conc", "src")):
        for d, ds, ff in os.walk(top):
            ds.sort()
            for f in sorted(ff):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), "rb").read())
    for f in (os.path.join(REPO, "Cargo.toml"), os.path.join(HERE, "conc", "Cargo.toml"), os.path.join(HERE, "conc", "rt.cpp")):
        h.update(open(f, "rb").read())
    stamp = os.path.join(t, "src.sha256")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h.hexdigest():
        fp = os.path.join(t, "release", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("sweep", "conc")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    rt = os.path.join(t, "rt.o")
    r = subprocess.run(["g++", "-O2", "-fPIC", "-c", os.path.join(HERE, "conc", "rt.cpp"), "-o", rt], capture_output=True, text=True)
    if r.returncode:
        raise Broken("rt.cpp does not build:\n" + r.stderr[-3000:])
    fl = f"-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg={rt} -Clink-arg=-lstdc++"
    if n != 64:
        fl += f' --cfg sweep_verif --cfg sweep_verif_n="{n}"'
    env = dict(os.environ, RUSTFLAGS=fl, CARGO_TARGET_DIR=t, CARGO_TERM_COLOR="never")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path", os.path.join(HERE, "conc", "Cargo.toml")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
    if r.returncode:
        raise Broken(f"conc does not build for node capacity {n}:\n{r.stdout[-6000:]}")
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _pin(i):
    cpus = sorted(os.sched_getaffinity(0))

    def f():
        _limits()
        # one token, one processor: handing it over needs no wake-up across processors
        os.sched_setaffinity(0, {cpus[i % len(cpus)]})
    return f


def replay_once(f, n, timeout=180):
    from common import Broken
    try:
        r = subprocess.run([binary(n), "--replay", f], capture_output=True, text=True, errors="replace", timeout=timeout, preexec_fn=_limits)
    except subprocess.TimeoutExpired:
        return f"does not end within {timeout} s"
    if r.returncode == 0:
        return None
    if r.returncode == 1:
        m = re.search(r"^msg (.*)$", r.stdout, re.M) or re.search(r"^FAIL (.*)$", r.stdout, re.M)
        return m[1] if m else "fails"
    if r.returncode < 0:
        return f"the process dies with {signal.Signals(-r.returncode).name}"
    raise Broken(f"replay ended with {r.returncode}: {r.stdout[-500:]} {r.stderr[-500:]}")


def replay(f, t):
    n = int(t["n"])
    build(n)
    m = replay_once(f, n)
    print("FAIL " + m if m else "PASS", flush=True)
    return 1 if m else 0


def _write(prop, n, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = f"property {prop}\nbin c06\nn {n}\n{text}"
    f = os.path.join(d, f"{prop}-n{n}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.replay")
    with open(f, "w") as fh:
        fh.write(body)
    return f


def _field(text, k):
    m = re.search(rf"^{k} (.*)$", text, re.M)
    return m[1] if m else ""


def check(prop, tier):
    from common import Broken
    ns = [4, 64] if tier == "quick" else [4, 8, 64]
    budget = 150 if tier == "quick" else 7200
    tot = {k: 0 for k in ("scenarios", "skipped", "incomplete", "executions", "points", "loads", "multi", "plain", "preempt_cut", "schedules_distinct")}
    mx, samples, per = 0, [], []
    auto = 0
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(build, ns))
    for n in ns:
        out = os.path.join(HERE, "target", f"out-c06-{tier}-n{n}-{os.getpid()}")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        try:
            ps = []
            t0 = time.time()
            for i in range(SHARDS):
                ps.append(subprocess.Popen([binary(n), "--out", os.path.join(out, str(i)), "--tier", tier, "--shard", f"{i}/{SHARDS}", "--budget", str(budget)],
                                           stdout=subprocess.DEVNULL, stderr=open(os.path.join(out, f"{i}.err"), "w"), preexec_fn=_pin(i)))
            end = time.time() + budget + 200
            bad = None
            live = set(range(SHARDS))
            while live and bad is None:
                time.sleep(0.05)
                for i in sorted(live):
                    rc = ps[i].poll()
                    if rc is not None:
                        live.discard(i)
                        if rc != 0:
                            bad = (i, rc)
                            break
                if time.time() > end:
                    bad = (min(live), "timeout")
            for p in ps:
                if p.poll() is None:
                    p.kill()
                    p.wait()
            if bad:
                i, rc = bad
                base = os.path.join(out, str(i))
                text = ""
                if rc == 1 and os.path.exists(base + ".fail"):
                    text = open(base + ".fail").read()
                elif rc == "timeout" or rc < 0 or rc in (101, 134):
                    text = open(base + ".now").read() if os.path.exists(base + ".now") else ""
                if text:
                    f = _write(prop, n, text)
                    m = replay_once(f, n)
                    if m is None and rc == 1:
                        # the failing schedule depends on more than the choices recorded: the whole scenario is its replay
                        os.unlink(f)
                        text = re.sub(r"^choices .*$", "choices ", text, flags=re.M)
                        f = _write(prop, n, text)
                        m = replay_once(f, n, 400)
                    if m:
                        return {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": ["(stopped at the first violation)"],
                                "exhaustive": False, "explanation": "stopped at the first violation"}, (f, m, _field(text, "human") or _field(text, "scenario"))
                    os.unlink(f)
                raise Broken(f"shard {i} (node capacity {n}) ended with {rc}, not reproduced\n{text}\n{open(base + '.err').read()[-1500:]}")
            pn = {"node_capacity": n, "wall_s": round(time.time() - t0, 1)}
            for i in range(SHARDS):
                j = json.load(open(os.path.join(out, f"{i}.json")))
                for k in tot:
                    tot[k] += j[k]
                    pn[k] = pn.get(k, 0) + j[k]
                mx = max(mx, j["max_choices"])
                auto = j["autotraits"]
                samples += [f"[capacity {n}] {s}" for s in j["samples"][:1]]
            per.append(pn)
        finally:
            shutil.rmtree(out, ignore_errors=True)
    cov = {
        "states": tot["schedules_distinct"], "transitions": tot["points"], "traces_validated_against_impl": tot["executions"],
        "samples": samples[:12], "exhaustive": tot["skipped"] == 0 and tot["incomplete"] == 0,
        "scenarios": tot["scenarios"], "scenarios_skipped": tot["skipped"], "scenarios_cut": tot["incomplete"],
        "schedules": tot["executions"], "scheduling_points": tot["points"], "atomic_loads": tot["loads"], "loads_with_several_readable_stores": tot["multi"],
        "plain_accesses_race_checked": tot["plain"], "choices_not_taken_for_the_preemption_bound": tot["preempt_cut"],
        "longest_choice_sequence": mx, "auto_trait_facts": auto, "node_capacities": ns, "explored": per,
        "rule": "one execution per sequence of choices (which thread goes on at every atomic operation, which store every atomic load reads); no merging of schedules; "
                "states counts distinct choice sequences, transitions scheduling points",
        "explanation": "the compiled crate itself runs under a token scheduler: every interleaving of the atomic operations of 2 or 3 threads (1 to 3 reads each, all kinds of reads), "
                       "every store a relaxed or acquire load may return, a happens-before race detector on every plain access; results compared with the same read run alone; "
                       "two-thread scenarios and single reads of three threads without a preemption bound, longer ones with the bound stated in the scenario",
    }
    return cov, None
