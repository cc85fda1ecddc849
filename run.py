#!/usr/bin/env python3
"""Driver: run.py <property> [--tier quick|thorough] [--n 4,64] [--replay FILE]

Builds the property's explorer against /repo's working tree once per node capacity, runs it,
confirms anything it reports by replaying the recorded case in a fresh process, and writes
evidence/<property>.json. Exit 0 held, 1 violation, 2 the check itself could not run.
"""
import hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402
from common import Broken  # noqa: E402

MEM = 14 << 30
SIGS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def log(*a):
    print(*a, flush=True)


def src_hash():
    h = hashlib.sha256()
    fs = []
    for top in (os.path.join(REPO, "src"), os.path.join(HERE, "harness", "src")):
        for d, ds, ff in os.walk(top):
            ds.sort()
            fs += [os.path.join(d, f) for f in sorted(ff)]
    fs += [os.path.join(REPO, "Cargo.toml"), os.path.join(HERE, "harness", "Cargo.toml")]
    for f in fs:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


# binaries that count the control-flow edges they execute
COUNTED = {"c19"}
# binaries in which the crate's own debug assertions and overflow checks are off, as in a release build
AS_RELEASED = {"c22"}
SANCOV = "-Cdebug-assertions=off -Coverflow-checks=off -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"


def profile(bin_):
    return "asreleased" if bin_ in AS_RELEASED else "release"


def target(n, bin_=None):
    return os.path.join(HERE, "target", f"{'w' if bin_ in COUNTED else 'n'}{n}")


def flags(n, bin_):
    # 64 is the shipped capacity: built without the hook
    f = "" if n == 64 else f'--cfg sweep_verif --cfg sweep_verif_n="{n}"'
    return f"{f} {SANCOV}" if bin_ in COUNTED else f


def build_one(n, bin_, sh):
    t = target(n, bin_)
    os.makedirs(t, exist_ok=True)
    stamp = os.path.join(t, f"src-{profile(bin_)}.sha256")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != sh:
        # never trust time stamps: what is built must be what is in the tree now
        fp = os.path.join(t, profile(bin_), ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("sweep"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, RUSTFLAGS=flags(n, bin_), CARGO_TARGET_DIR=t, CARGO_TERM_COLOR="never")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--profile", profile(bin_), "--offline", "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml"), "--bin", bin_],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise Broken(f"build failed for node capacity {n}:\n{r.stdout[-6000:]}")
    with open(stamp, "w") as f:
        f.write(sh)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def spawn(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return "timeout", o, e


def slots(path):
    """cases that were executing when the process ended"""
    out = []
    try:
        b = open(path, "rb").read()
    except OSError:
        return out
    for i in range(0, len(b), 1 << 16):
        busy, _seq, ln, lo = struct.unpack_from("<QQQQ", b, i)
        if busy and ln <= 200 and lo <= (1 << 16) // 4:
            name = b[i + 32:i + 32 + ln].decode(errors="replace")
            ops = list(struct.unpack_from(f"<{lo}I", b, i + 256))
            out.append((name, ops))
    return out


def write_replay(prop, n, bin_, tier, suite, ops, msg, shown):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = f"property {prop}\nbin {bin_}\nn {n}\ntier {tier}\nsuite {suite}\nops {' '.join(map(str, ops))}\n# history: {shown}\n# {msg}\n"
    f = os.path.join(d, f"{prop}-n{n}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.replay")
    with open(f, "w") as fh:
        fh.write(body)
    return f


def replay_once(n, bin_, f, timeout=120):
    rc, o, e = spawn([os.path.join(target(n, bin_), profile(bin_), bin_), "--replay", f], timeout)
    case = next((l[6:] for l in o.splitlines() if l.startswith("case: ")), "")
    if rc == 0:
        return None, case
    if rc == 1:
        return next((l[5:] for l in o.splitlines() if l.startswith("FAIL")), "fails").strip(), case
    if rc == "timeout":
        return f"does not return within {timeout} s", case
    if isinstance(rc, int) and rc < 0 and signal.Signals(-rc) in SIGS:
        tail = " ".join(e.strip().splitlines()[-2:])[:300]
        return f"the process dies with {signal.Signals(-rc).name} {tail}", case
    raise Broken(f"replay ended with {rc}: {o[-500:]} {e[-500:]}")


def confirm(prop, n, bin_, tier, suite, ops, msg, shown):
    """replay in fresh processes; the case is reported only if it fails there too"""
    f = write_replay(prop, n, bin_, tier, suite, ops, msg, shown)
    for _ in range(2):
        m, case = replay_once(n, bin_, f)
        if m:
            return write_replay(prop, n, bin_, tier, suite, ops, m, case or shown), m, case or shown
    os.unlink(f)
    return None


def run_bin(prop, n, bin_, tier, budget):
    out = os.path.join(HERE, "target", f"out-{prop}-{tier}-n{n}-{os.getpid()}")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        t0 = time.time()
        rc, o, e = spawn([os.path.join(target(n, bin_), profile(bin_), bin_), "--tier", tier, "--out", out, "--budget", str(budget)], budget + 240)
        wall = time.time() - t0
        res = None
        try:
            res = json.load(open(os.path.join(out, "result.json")))
        except (OSError, ValueError):
            pass
        if rc == 0 and res is not None:
            return res, None, wall
        if rc == 1 and res is not None and res.get("fail"):
            x = res["fail"]
            c = confirm(prop, n, bin_, tier, x["suite"], x["ops"], x["msg"], x["shown"])
            if c is None:
                # every case is deterministic, unless it reads memory it must not: the explorer's
                # observation stands, its replay is the whole run
                f = write_replay(prop, n, bin_, tier, x["suite"], x["ops"], x["msg"] + " (seen during the run only)", x["shown"])
                c = (f, x["msg"], x["shown"])
            return res, c, wall
        died = rc == 43 or rc == "timeout" or (isinstance(rc, int) and rc < 0 and signal.Signals(-rc) in SIGS) or rc == 101
        if died:
            for name, ops in slots(os.path.join(out, "slots")):
                c = confirm(prop, n, bin_, tier, name, ops, "", "")
                if c:
                    return {"suites": [], "inner": 0}, c, wall
        raise Broken(f"{bin_} (node capacity {n}) ended with {rc}, not reproduced by any case in flight\n{o[-1500:]}\n{e[-1500:]}")
    finally:
        shutil.rmtree(out, ignore_errors=True)


def known():
    """{property: [(substring, description)]}"""
    k = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=\[(.*?)\] (.*)", l)
            if m:
                k.setdefault(m[1], []).append((m[2], m[3].strip()))
    return k


def main():
    a = sys.argv[1:]
    opt = {}
    pos = []
    while a:
        x = a.pop(0)
        if x.startswith("--"):
            opt[x[2:]] = a.pop(0)
        else:
            pos.append(x)
    if "replay" in opt:
        t = dict(l.split(" ", 1) for l in open(opt["replay"]).read().splitlines() if " " in l and not l.startswith("#"))
        n, b = int(t["n"]), t["bin"]
        if b == "c06":
            import conc
            sys.exit(conc.replay(opt["replay"], t))
        if b == "c21":
            import miri
            sys.exit(miri.replay(opt["replay"], t))
        build_one(n, b, src_hash())
        m, case = replay_once(n, b, opt["replay"])
        log("case:", case)
        log("FAIL " + m if m else "PASS")
        sys.exit(1 if m else 0)
    prop = pos[0]
    tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = CHECKS[prop]
    t0 = time.time()
    if ck.get("engine") == "conc":
        import conc
        cov, viol = conc.check(prop, tier)
    elif ck.get("engine") == "miri":
        import miri
        cov, viol = miri.check(prop, tier, opt)
    else:
        ns = [int(x) for x in opt["n"].split(",")] if "n" in opt else ck["n"][tier]
        bin_ = prop.lower()
        sh = src_hash()
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda n: build_one(n, bin_, sh), ns))
        total = float(opt.get("budget", 330 if tier == "quick" else 4 * 3600))
        suites, viol, inner = [], None, 0
        for i, n in enumerate(ns):
            left = total - (time.time() - t0)
            res, viol, wall = run_bin(prop, n, bin_, tier, max(20.0, left / (len(ns) - i) * (1 if i == len(ns) - 1 else 1.5)))
            inner += res.get("inner", 0)
            for s in res["suites"]:
                s["node_capacity"] = n
                suites.append(s)
            if viol:
                break
        cov = coverage(ck, suites, inner, ns)
    findings = []
    if viol:
        for sub, what in known().get(prop, []):
            if sub in viol[1] or sub in viol[2]:
                findings.append(what)
        if findings:
            viol = None
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ck["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for w in findings:
        log(f"KNOWN-FINDING: property={prop} {w}")
    if viol:
        log(f"history: {viol[2]}")
        log(f"result:  {viol[1]}")
        log(f"VIOLATION property={prop} replay={viol[0]}")
        sys.exit(1)
    log(f"{prop} {tier}: held on {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} histories run on the real code, {ev['wall_s']} s")
    sys.exit(0)


def coverage(ck, suites, inner, ns):
    samples = []
    for s in suites:
        for x in s["samples"][:1]:
            if x and len(samples) < 12:
                samples.append(f"[capacity {s['node_capacity']}, {s['suite']}] {x[:400]}")
    return {
        "states": sum(s["states"] for s in suites),
        "transitions": sum(s["transitions"] for s in suites),
        "traces_validated_against_impl": sum(s["executions"] for s in suites),
        "samples": samples or ["(stopped at the first violation)"],
        "exhaustive": bool(suites) and all(s["complete"] or s["bound"].startswith("all states up to depth") for s in suites),
        "explored": [{k: s[k] for k in ("node_capacity", "suite", "kind", "states", "transitions", "executions", "depth", "complete", "bound", "wall_s")} for s in suites],
        "node_capacities": ns,
        "evaluations": inner,
        "rule": ck.get("rule", "every history is executed from scratch on the real code; evaluations counts the comparisons made inside single states"),
        "explanation": ck["explanation"],
    }


if __name__ == "__main__":
    try:
        main()
    except Broken as e:
        log("ERROR", e)
        sys.exit(2)
