#!/usr/bin/env python3
"""drive.py check ID TIER | replay FILE

Runs the scenarios of mirisim inside Miri under many seeds. One Miri seed, preemption rate and
scenario range is one exactly repeatable execution."""
import concurrent.futures as cf, json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KINDS = {
 "C09": ["oneshot::channel", "Sender::send, clone, is_closed, drop", "Receiver::recv_now, peek, is_empty, drop", "channel::Sender for Option<oneshot::Sender>"],
 "C10": ["parker::new", "Unparker clone, unpark, send, drop", "Parker::park", "oneshot::Receiver::recv", "SyncChannels"],
 "C11": ["util::ThinArc", "util::OwnedSlice", "string::Bytes and its newtypes", "string::Splitter", "string::SecretBuf", "ServerMsg, ClientMsg, Source, SharedSource"],
}
RULE = {
 "C09": "each scenario plans, from its seed, one to four threads that clone, send on, query, pass around and drop senders of one channel while another thread or the main thread queries, peeks, receives from or drops the receiver, at once or after every sender is gone; non-trivial = at least one oracle comparison was made in it",
 "C10": "each scenario is one of: random unparks, clones and drops of unparkers on up to three threads against a thread that parks up to three times (the parker moving between threads); strict alternation with one unparker kept alive; unparks before the first park; a blocking receive with several unparking senders; the channels handlers get; with stray thread wake-ups injected in half of them; non-trivial = at least one oracle comparison was made in it",
 "C11": "each scenario plans, from its seed, two or three threads that clone, compare, hash, print, split, case-map, convert, edit, pass around, turn into vectors (then overwritten) and drop up to three strings, sources or messages sharing their buffers; non-trivial = at least one oracle comparison was made in it",
}
ORACLE = {
 "C09": ["a successful send is unique, nobody's value is lost, returned to the wrong sender or dropped other than once", "what a completed send must make visible is judged through acquire loads of the harness, so a stale answer that the memory model allows is not an error"],
 "C10": ["one thread parks on a parker at a time", "unpark is not called by hand on a channel that is being received from (a blocking receive may then return nothing)"],
 "C11": ["contents are compared with a copy the scenario kept"],
}
B = 40
RATES = [0.01, 0.05, 0.1, 0.2, 0.4]
CAS = [0.8, 0.0, 0.4]

def env(miri_seed, rate, cas):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=os.path.join(HERE, "target"), CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0",
             MIRIFLAGS=f"-Zmiri-disable-stacked-borrows -Zmiri-seed={miri_seed} -Zmiri-preemption-rate={rate} -Zmiri-compare-exchange-weak-failure-rate={cas}")
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e

def miri(args, miri_seed=0, rate=0.1, cas=0.8, timeout=300):
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--"] + [str(a) for a in args]
    p = subprocess.Popen(cmd, cwd=HERE, env=env(miri_seed, rate, cas), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o, e

def classify(rc, err):
    """(class, detail) of a failed run, or None if it is no verdict about the code."""
    if rc == 0:
        return None
    if rc is None:
        return ("hang", "no end within the time limit")
    m = re.search(r"^VZ-VIOLATION (\w+): (.*)$", err, re.M)
    if m:
        return (m.group(1), m.group(2))
    m = re.search(r"^error: Undefined Behavior: (.*)$", err, re.M)
    if m:
        c = "data_race" if "Data race" in m.group(1) else "undefined_behavior"
        return (c, m.group(1))
    if re.search(r"^error: .*deadlock", err, re.M) or "the evaluated program deadlocked" in err:
        return ("deadlock", "every thread is blocked")
    if "memory leaked" in err:
        return ("leak", re.search(r"memory leaked: (.*)", err).group(1))
    m = re.search(r"panicked at (.*)", err)
    if m:
        return ("panic", m.group(1))
    m = re.search(r"^error: abnormal termination: (.*)$", err, re.M)
    if m:
        return ("abort", m.group(1))
    return None

def last_scenario(err):
    s = re.findall(r"^S (\d+)$", err, re.M)
    return int(s[-1]) if s else 0

def job(i, seed):
    return dict(miri_seed=seed * 1_000_003 + i, rate=RATES[i % len(RATES)], cas=CAS[i % len(CAS)], first=i * B, count=B)

def run_job(pid, seed, j, skip="", show=False, timeout=300):
    a = [pid, seed, j["first"], j["count"]]
    if skip:
        a += ["--skip", skip]
    if show:
        a.append("--show")
    return miri(a, j["miri_seed"], j["rate"], j["cas"], timeout)

def minimise(pid, seed, j, cls, err):
    """The failing scenario alone, with as few operations as still fail under some schedule."""
    t0 = time.time()
    n = last_scenario(err)
    limit = 20 if cls == "hang" else 60
    fails = []

    def some(skip, tries, secs):
        """A schedule under which the scenario fails in the same way."""
        end = time.time() + secs
        with cf.ThreadPoolExecutor(8) as ex:
            stop = threading.Event()
            def one(k):
                if stop.is_set() or time.time() > end:
                    return None
                jj = dict(miri_seed=j["miri_seed"] + k, rate=j["rate"] if k % 2 == 0 else 0.2, cas=j["cas"], first=n, count=1)
                rc, o, e = run_job(pid, seed, jj, skip, True, limit)
                c = classify(rc, e)
                if c and c[0] == cls:
                    stop.set()
                    return jj, e, c[1]
                return None
            for r in ex.map(one, range(tries)):
                if r:
                    return r
        return None
    best = some("", 96, 60)
    if not best:
        # Needs the runs before it: replay the whole range up to it.
        jj = dict(j, count=n - j["first"] + 1)
        return jj, "", err, None
    m = re.search(r"^O (\d+)$", best[1], re.M)
    ops = int(m.group(1)) if m else 0
    skip = []
    size = max(ops // 2, 1)
    while time.time() - t0 < 100:
        changed = False
        todo = [k for k in range(ops) if k not in skip]
        for a in range(0, len(todo), size):
            if time.time() - t0 > 100:
                break
            t = sorted(skip + todo[a:a + size])
            r = some(",".join(map(str, t)), 24, 12)
            if r:
                skip, best, changed = t, r, True
        if size == 1 and not changed:
            break
        size = max(size // 2, 1)
    return best[0], ",".join(map(str, skip)), best[1], best[2]

def clean(err):
    keep = [l for l in err.splitlines() if not re.match(r"^S \d+$", l)]
    i = next((k for k, l in enumerate(keep) if l.startswith(("error", "VZ-VIOLATION", "  "))), 0)
    ls = [l for l in keep if re.match(r"^\s+\d+ thread \d", l)]
    e = next((k for k, l in enumerate(keep) if l.startswith(("error", "VZ-VIOLATION"))), i)
    return ls, keep[e:e + 40]

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = 110 if tier == "quick" else 3000
    jobs = int(os.environ.get("MIRISIM_BATCHES", jobs))
    wall = 120 if tier == "quick" else 1700
    rc, o, e = miri(["noop"], timeout=600)
    if rc != 0:
        sys.stderr.write(e)
        print("mirisim does not build against /repo", file=sys.stderr)
        return 2
    build_s = time.time() - t0
    hashes, totals, done, capped, nondet, det = set(), {}, 0, False, 0, 0
    stop = threading.Event()
    fail = None
    bad = None
    begin = time.time()
    def one(i):
        if stop.is_set() or time.time() - begin > wall:
            return i, None
        return i, run_job(pid, seed, job(i, seed))
    samples = []
    ran = 0
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in cf.as_completed([ex.submit(one, i) for i in range(jobs)]):
            i, r = f.result()
            if r is None:
                capped = capped or not stop.is_set()
                continue
            rc, o, e = r
            if rc == 0:
                h = re.search(r"^H(.*)$", o, re.M).group(1).split()
                hashes.update(h)
                done += len(h)
                ran += 1
                for kv in re.search(r"^T (.*)$", o, re.M).group(1).split():
                    k, v = kv.split("=")
                    totals[k] = totals.get(k, 0) + int(v)
                if i < 2:
                    # Same seed, same execution.
                    rc2, o2, _ = run_job(pid, seed, job(i, seed))
                    det += 1
                    nondet += o2 != o
                continue
            c = classify(rc, e)
            if c is None:
                bad = e
                stop.set()
            elif fail is None:
                fail = (i, c, e)
                stop.set()
    code = 0
    nviol = 0
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    if fail:
        i, (cls, detail), err = fail
        path = os.path.join(VERIF, "out", f"replay-{pid}-{seed}.json")
        j = job(i, seed)
        jj, skip, merr, mdetail = minimise(pid, seed, j, cls, err)
        events, msg = clean(merr)
        json.dump(dict(property=pid, scenario_seed=seed, **jj, skip=skip, **{"class": cls}, detail=mdetail or detail,
                       found_in=j, events=events, message=msg,
                       replay=f"python3 {HERE}/drive.py replay {path}"), open(path, "w"), indent=1)
        print(f"violation class: {cls}\n{mdetail or detail}")
        print(f"VIOLATION property={pid} replay={path}")
        code, nviol = 1, 1
    elif bad is not None:
        sys.stderr.write(bad[-4000:])
        print(f"HARNESS ERROR property={pid}: Miri could not run a scenario", file=sys.stderr)
        code = 3
    else:
        rc, o, e = run_job(pid, seed, dict(job(0, seed), count=2), show=True)
        samples = [dict(seed=job(0, seed)["miri_seed"], trace=[l.strip() for l in e.splitlines() if l.startswith(("S ", "  "))][:60])]
    search = time.time() - begin
    checks = totals.pop("checks", 0)
    faults = {"spurious_or_stale_wakeup": totals.pop("spurious", 0)} if pid == "C10" else {}
    faults["schedules_with_random_preemption"] = done
    faults["weak_memory_stale_loads_allowed_in_scenarios"] = done
    faults["spurious_compare_exchange_failures_allowed_in_scenarios"] = done * 2 // 3
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=dict(
        evaluations=done, distinct_nontrivial=len(hashes), rule=RULE[pid], oracle_comparisons=checks,
        seeds_per_hour=round(ran / max(search, 1e-9) * 3600), scenarios_per_hour=round(done / max(search, 1e-9) * 3600),
        miri_seeds=ran, simulated_seconds=0, simulated_time_note="no operation under test depends on time",
        determinism_rechecks_equal=det - nondet, determinism_rechecks_unequal=nondet, stopped_by_wall_limit=capped,
        faults_injected=faults, situations_reached=totals,
        distinct_measure="distinct hashes of a scenario's event log in ticket order (thread, operation, result)",
        preemption_rates=RATES, real_components=KINDS[pid],
        stub_components=["threads, scheduler, memory, clock: Miri", "the application using them: the scenario's threads"],
        samples=samples or [{"seed": seed, "trace": ["stopped at the violation or error; see the replay file"]}]),
        assumptions=ORACLE[pid], violations=nviol, wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid}: {done} scenarios under {ran} seeds, {len(hashes)} distinct, {checks} comparisons, build {build_s:.0f} s, search {search:.0f} s, {'held' if code == 0 else 'NOT held or error'}")
    return code

def replay(path):
    r = json.load(open(path))
    rc, o, e = run_job(r["property"], r["scenario_seed"], r, r.get("skip", ""), True, 60 if r["class"] == "hang" else 300)
    c = classify(rc, e)
    sys.stdout.write("\n".join(l for l in e.splitlines()[-80:]) + "\n")
    if c:
        print("reproduced exactly" if c[0] == r["class"] and c[1] == r["detail"] and clean(e)[0] == r["events"] else f"a different failure: {c}")
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0 if rc == 0 else 3

if __name__ == "__main__":
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2], sys.argv[3]))
    sys.exit(replay(sys.argv[2]))
