#!/usr/bin/env python3
"""Deterministic simulation of rangetools: build, search, minimise, replay, evidence.

    check.py <property>            check it; VERIF_TIER (quick|thorough) and VERIF_SEED apply
    check.py replay <file>         run a replay file again; exit 1 if it reproduces exactly
    check.py setup                 build everything
    check.py determinism [n]       run n runs of every property twice in different ways and compare
"""
import array, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(SIM, "target")
NPROC = max(2, min(8, os.cpu_count() or 2))

# property -> workload group, builds, runs per build (quick), chunk
PLAN = {
    "C01": ("iters", ["debug", "release"], 160000),
    "C02": ("iters", ["debug", "release"], 160000),
    "C03": ("iters", ["debug", "release"], 140000),
    "C04": ("iters", ["debug", "release"], 130000),
    "C05": ("sets", ["debug", "release"], 16000),
    "C06": ("sets", ["debug", "traced", "release"], 22000),
    "C07": ("disk", ["debug", "release"], 70000),
    "C08": ("disk", ["debug", "release"], 70000),
    "C09": ("iters", ["debug", "release"], 160000),
    "C10": ("sets", ["debug", "traced", "release"], 40000),
    "C18": ("mem", ["debug", "release"], 60000),
    "C19": ("net", ["debug", "release"], 60000),
    "C20": ("mixed", ["debug", "release"], 60000),
    "C21": ("repl", ["debug", "release"], 30000),
}
THOROUGH = 20

NOTES = {
    "C01": dict(
        rule="One run is up to a few dozen episodes; an episode builds a bounded range or set (over the simulated element type or one of 13 built-in ones) by a random sequence of set operations, hands its one iterator to 1-4 consumers and lets the seeded scheduler interleave their calls (next, next_back, nth, nth_back, size_hint, len, take, rev, find, position, any, all, find_map, take_while, skip_while, peekable, filter, try_fold, step_by, skip, for_each, from either end, finishing calls on copies, abandoning); one episode in 1500 iterates up to 200000 elements. An episode counts as non-trivial if at least two consumers really alternated; distinct by the hash of its event log.",
        real="rangetools: all of its iterator, range, set and Step code",
        stub="consumers and their scheduler; in half of the episodes the element type"),
    "C02": dict(
        rule="As C01 with ranges and sets that have no upper bound; an episode is non-trivial if at least two consumers alternated; distinct by event-log hash.",
        real="rangetools: all of its iterator, range, set and Step code",
        stub="consumers and their scheduler; in half of the episodes the element type"),
    "C03": dict(
        rule="An episode keeps a family of iterators (an original, checkpoints of it, restarts from the source), lets consumers die between calls or in the middle of one (the element type panics), and resumes from checkpoints. Non-trivial: a checkpoint, crash or restart happened; distinct by event-log hash.",
        real="rangetools: all of its iterator, range, set and Step code",
        stub="consumers, crashes, and (mostly) the element type"),
    "C04": dict(
        rule="An episode drives one iterator over the simulated element type, whose comparisons and steps panic at chosen points (one of the operations the call makes, found by a dry run on a copy, or a blind guess), and works out from copies what was consumed. Non-trivial: a failure surfaced; distinct by event-log hash.",
        real="rangetools: all of its iterator, range and set code",
        stub="the element type and the consumer"),
    "C05": dict(
        rule="An episode keeps a pool of values of all 15 range and set types and applies operations whose element comparisons panic at chosen points, up to 300 times in a row, then checks every held value and retries. Non-trivial: a failure surfaced; distinct by event-log hash.",
        real="rangetools: all set operations, conversions and iteration",
        stub="the element type and the caller"),
    "C06": dict(
        rule="An episode shares a pool of values among 1-4 callers on OS threads that run one at a time under the seeded scheduler, which preempts between calls, at element operations and, in the traced build, at any basic block or memory access of the library; callers also re-enter from inside comparisons and hold live iterators. Non-trivial: a preemption inside a call or a re-entrant call happened; distinct by event-log hash, which includes every scheduling decision.",
        real="rangetools: all set operations and iteration; OS threads, which only the simulator schedules",
        stub="the element type, the scheduler, futex waits inside the library"),
    "C07": dict(
        rule="An episode saves and loads values of all 9 serialisable types in 7 format variants through a simulated disk: a file rewritten in place or through a temporary file, a journal, data cut at every byte or lacking each component in turn, elements whose own serialisation fails. Non-trivial: a storage or element fault took effect; distinct by event-log hash.",
        real="rangetools' serde code, serde, serde_json, ciborium, bincode, std's buffered I/O",
        stub="the disk (durable and cached contents), the element type (built-in ones in a tenth of the episodes)"),
    "C08": dict(
        rule="An episode damages stored data (tree edits: numbers, order, duplicates, drops, splices of two values, swapped bounds, renamed parts; byte edits: flips, lost, duplicated, dropped or misdirected blocks; or pieces arranged at random) and loads it; what loads is compared with its own membership test over the whole domain, then used in further operations. All episodes are non-trivial; distinct by event-log hash.",
        real="rangetools' serde code and set operations, serde, serde_json, ciborium, bincode",
        stub="the disk, the element type"),
    "C09": dict(
        rule="As C01, with ranges at the ends of the domain and a simulated element type that panics, wraps, saturates or alternates when stepped past its end, in builds with and without overflow checks. All episodes count as non-trivial; distinct by event-log hash.",
        real="rangetools: all of its iterator, range, set and Step code",
        stub="consumers; in half of the episodes the element type"),
    "C10": dict(
        rule="An episode builds sets of up to 50 pieces over domains of up to 2^101 elements and gives every operation a budget of element operations that depends only on the number of pieces (40(p+3)^3 for a set operation on p pieces in all, 16(p+4) for an iterator call), also after injected failures. A run that does not return is killed and reported. Non-trivial: a value of more than 4 pieces or an injected failure; distinct by event-log hash.",
        real="rangetools: all set operations and iterators",
        stub="the element type and the caller"),
    "C18": dict(
        rule="An episode is a history of set operations, iterations, checkpoints and drops, with failures injected at chosen element operations, under an allocator that knows what the code under test holds: every call's peak and every iterator's holding is bounded by a function of the pieces, and once all values are dropped nothing is held (where something is, the same history is repeated 64 times to tell a kept buffer from a leak). A quarter of the runs load stored data, damaged so that it promises more than it holds, with failing reads and elements. Non-trivial: a failure surfaced; distinct by event-log hash.",
        real="rangetools: all set operations and iterators and its serde code; serde, serde_json, ciborium, bincode",
        stub="the element type, the caller, the data source and the allocator's bookkeeping"),
    "C19": dict(
        rule="An episode is either 2-5 nodes that replicate two growing sets by gossiping whole states and deltas (what is added and not known at the peer), or a transfer of a set in chunks with acknowledgements (each a set), over a simulated network and virtual time: messages lost, duplicated, delayed, overtaken, torn; partitions and heals; nodes that stall, run on skewed timers, crash (between events, while saving, before or after saving) and restart from what they saved; merges that fail half-way. Every set computed is compared with the model; after the faults stop one exchange must make the replicas equal, and the transfer must finish within as many rounds as there are chunks left plus three, each element applied exactly once. Non-trivial: a fault took effect; distinct by event-log hash.",
        real="rangetools: all set operations, iteration and serde code; serde, serde_json, ciborium, bincode",
        stub="nodes, timers, disks, network, virtual time; the element type (in the transfers four built-in ones too)"),
    "C20": dict(
        rule="An episode is a cluster of 2-4 nodes, each running the code under test or the frozen release 0.1.4, which add ranges, gossip their sets in 7 format variants over the simulated network (loss, duplication, delay, overtaking, partitions), save, crash, and restart in either release from what either has saved, with starts that fail before or after loading; or an archive of bounds and ranges over six other element types written and read by either release. Every load is compared with the model (ranges and bounds of the archive with the value itself); after the faults stop one exchange must make all nodes equal. Non-trivial: a fault took effect or data crossed between releases; distinct by event-log hash.",
        real="rangetools' serde code and unions, of both releases; serde, serde_json, ciborium, bincode",
        stub="nodes, timers, disks, network, virtual time; the element type of the clusters"),
    "C21": dict(
        rule="An episode makes a log of up to 400 operations over five registers and has 2-4 replicas apply it, each on an OS thread that only the seeded scheduler runs (switches between entries and preemptions inside element operations), with entries that fail up to three times before they succeed, unrelated operations (failing too) on the same thread, saved states, crashes with recovery from anybody's saved state or from nothing, and moves (saved and loaded). After every entry the value written is compared with what the first replica to get there had: ==, Hash, JSON and bincode bytes; answers likewise. Non-trivial: a failure, crash, recovery, move, unrelated work or switch happened; distinct by event-log hash.",
        real="rangetools: all set operations, iteration, equality, hashing and serde code; OS threads, which only the simulator schedules",
        stub="the element type, the scheduler, the log, clock and randomness as the library would see them"),
}

SANCOV = ("-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
          "-Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads "
          "-Cllvm-args=-sanitizer-coverage-trace-stores")


class Broken(Exception):
    pass


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


# ---------------------------------------------------------------------------------------------
# Building

def tree_key():
    """A digest of everything the build depends on, by content: modification times mean nothing."""
    h = hashlib.sha256()
    roots = [(REPO, {"target", ".git", ".github"}), (SIM, {"target"})]
    for root, skip in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in skip)
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    h.update(SANCOV.encode())
    return h.hexdigest()


def binary(group, build):
    return os.path.join(TARGET, "bin", f"sim-{group}-{build}")


def build_one(group, build, key):
    out = binary(group, build)
    stamp = out + ".key"
    try:
        if open(stamp).read() == key and os.path.exists(out):
            return
    except OSError:
        pass
    tdir = os.path.join(TARGET, f"{group}-{build}")
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(SIM, "Cargo.toml"),
           "--target-dir", tdir, "--features", group]
    sub = "debug"
    if build == "release":
        cmd += ["--release"]
        sub = "release"
    elif build == "traced":
        # --target keeps the instrumentation out of build scripts and procedural macros
        env["RUSTFLAGS"] = SANCOV
        cmd += ["--profile", "traced", "--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/traced"
    fp = os.path.join(tdir, sub, ".fingerprint")
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if f.startswith(("rangetools-", "sim-")):
                shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SIM)
    if r.returncode != 0:
        raise Broken(f"build {group}/{build} failed:\n" + r.stdout[-6000:])
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + f".{os.getpid()}"
    shutil.copy2(os.path.join(tdir, sub, "sim"), tmp)
    os.replace(tmp, out)
    with open(stamp, "w") as f:
        f.write(key)


def build(group, builds):
    key = tree_key()
    with cf.ThreadPoolExecutor(len(builds)) as ex:
        for f in [ex.submit(build_one, group, b, key) for b in builds]:
            f.result()
    return key


# ---------------------------------------------------------------------------------------------
# Searching

def run_search(prop, group, b, seed, lo, hi, seen=None, hashes=False):
    cmd = [binary(group, b), "search", "--prop", prop, "--seed", str(seed), "--from", str(lo), "--to", str(hi)]
    if seen:
        cmd += ["--seen", seen]
    if hashes:
        cmd += ["--hashes"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise Broken(f"{' '.join(cmd)} exited with {r.returncode}: {r.stderr[-2000:]}")
    return json.loads(r.stdout)


class Server:
    """A process that runs given choice sequences."""

    def __init__(self, prop, group, b):
        self.p = subprocess.Popen([binary(group, b), "serve", "--prop", prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True)

    def run(self, choices, trace=False):
        self.p.stdin.write(json.dumps({"choices": choices, "trace": trace}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Broken("the replay process died")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def minimise(prop, group, b, choices, cls, limit):
    """The shortest, smallest choice sequence found that shows a violation of the same class."""
    end = time.time() + limit
    s = Server(prop, group, b)
    best = list(choices)

    def attempt(c):
        nonlocal best
        if time.time() > end:
            return False
        r = s.run(c)
        if not r["viol"] or r["viol"]["class"] != cls:
            return False
        got = r["choices"]
        if (len(got), sum(got)) < (len(best), sum(best)):
            best = got
            return True
        return False

    try:
        r = s.run(best)
        if not r["viol"] or r["viol"]["class"] != cls:
            return best
        best = r["choices"]
        while time.time() < end:
            before = (len(best), sum(best))
            # whole operations and episodes first
            spans = s.run(best, True).get("spans") or []
            spans = sorted({tuple(x) for x in spans}, key=lambda x: x[0] - x[1])
            for a, z in spans:
                if z > len(best) or time.time() > end:
                    continue
                if attempt(best[:a] + best[z:]):
                    break
            else:
                size = max(1, len(best) // 2)
                while size >= 1 and time.time() < end:
                    i = len(best) - size
                    while i >= 0 and time.time() < end:
                        if not attempt(best[:i] + best[i + size:]):
                            if any(best[i:i + size]):
                                attempt(best[:i] + [0] * size + best[i + size:])
                        i -= size
                    size //= 2
                for i in range(len(best) - 1, -1, -1):
                    if i >= len(best) or best[i] == 0:
                        continue
                    lo, hi = 0, best[i]
                    while lo < hi and time.time() < end and i < len(best):
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                        else:
                            lo = mid + 1
            if (len(best), sum(best)) == before:
                break
    finally:
        s.close()
    return best


def known_findings():
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)", line)
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def is_known(prop, v, known):
    for p, cls, rx, text in known:
        if p == prop and cls == v["class"] and re.search(rx, v["msg"]):
            return text
    return None


def search(prop, group, builds, runs, seed, deadline):
    """All builds, in chunks over all cores. Stops at the first violation in (build, run) order."""
    chunk = max(50, min(1000, runs // 24))
    jobs = []
    for k, b in enumerate(builds):
        for lo in range(0, runs, chunk):
            # every build explores runs of its own
            jobs.append((b, k * runs + lo, k * runs + min(runs, lo + chunk)))
    # the builds take turns, so that each is covered should time run out
    per = len(jobs) // len(builds)
    jobs = [jobs[k * per + i] for i in range(per) for k in range(len(builds))]
    tmp = tempfile.mkdtemp(prefix="sim-")
    tot = dict(runs=0, events=0, episodes=0, nontrivial=0, choices=0)
    stats, maxs, samples, seen, per_build = {}, {}, [], set(), {}
    viols, done, late = [], 0, 0
    known, reported = known_findings(), {}

    def work(i):
        b, lo, hi = jobs[i]
        if (viols and i > min(v[0] for v in viols)) or time.time() > deadline:
            return i, None, None
        seen_f = os.path.join(tmp, str(i))
        parts = []
        while True:
            r = run_search(prop, group, b, seed, lo, hi, seen_f)
            parts.append(r)
            v = r["violation"]
            if v and is_known(prop, v, known):
                reported[is_known(prop, v, known)] = 1
                lo = v["run"] + 1
                if lo < hi:
                    continue
                r["violation"] = None
            return i, parts, seen_f

    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for f in cf.as_completed([ex.submit(work, i) for i in range(len(jobs))]):
                i, parts, seen_f = f.result()
                if parts is None:
                    late += 1
                    continue
                done += 1
                for r in parts:
                    for k in tot:
                        tot[k] += r[k]
                    per_build[jobs[i][0]] = per_build.get(jobs[i][0], 0) + r["runs"]
                    for k, v in r["stats"].items():
                        stats[k] = stats.get(k, 0) + v
                    for k, v in r["max"].items():
                        maxs[k] = max(maxs.get(k, 0), v)
                    if r["samples"] and len(samples) < 4:
                        samples.append(r["samples"][0])
                a = array.array("Q")
                with open(seen_f, "rb") as fh:
                    a.frombytes(fh.read())
                if len(seen) < 30_000_000:
                    seen.update(a)
                os.unlink(seen_f)
                if parts[-1]["violation"]:
                    viols.append((i, jobs[i][0], parts[-1]["violation"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(tot=tot, stats=stats, max=maxs, samples=samples, distinct=len(seen), viols=sorted(viols, key=lambda v: v[0]),
                chunks=done, unfinished=late, per_build=per_build, known=sorted(reported))


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    group, builds, runs = PLAN[prop]
    if tier == "thorough":
        runs *= THOROUGH
    scale = float(os.environ.get("SIM_SCALE", "1"))
    runs = max(100, int(runs * scale))
    try:
        key = build(group, builds)
        tb = time.time()
        deadline = t0 + (500 if tier == "quick" else 6 * 3600)
        res = search(prop, group, builds, runs, seed, deadline)
    except Broken as e:
        die(str(e))
    searching = time.time() - tb
    status, shown = 0, None
    for _, b, v in res["viols"][:1]:
        if v["class"] == "HARNESS":
            print(f"run {v['run']} of build {b}, seed {seed}: {v['msg']}")
            die("the harness failed; nothing is concluded")
        shown = report(prop, group, b, v, seed, key, 60 if tier == "quick" else 300)
        status = 1
    # The same runs again, in another process: they must leave the same event logs.
    repeat = {"runs": 0, "different": 0}
    if status == 0:
        for k, b in enumerate(builds):
            x = run_search(prop, group, b, seed, k * runs, k * runs + 30, hashes=True)["hashes"]
            y = run_search(prop, group, b, seed, k * runs + 10, k * runs + 30, hashes=True)["hashes"]
            repeat["runs"] += len(y)
            repeat["different"] += sum(1 for p, q in zip(x[10:], y) if p != q)
    tot, st = res["tot"], res["stats"]
    faults = {k: v for k, v in sorted(st.items()) if k.startswith(("fault.", "damage."))}
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": status,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": res["distinct"],
            "rule": NOTES[prop]["rule"],
            "samples": res["samples"],
            "episodes": tot["episodes"],
            "nontrivial_episodes": tot["nontrivial"],
            "events": tot["events"],
            "choices_drawn": tot["choices"],
            "calls_into_the_code": st.get("calls", 0),
            "runs_per_build": res["per_build"],
            "runs_per_hour": int(tot["runs"] / max(searching, 0.001) * 3600),
            "simulated_time": f"{st.get('steps', 0)} scheduled steps; the code reads no clock, so time is counted in steps"
                              + (f"; {st['virtual_time']} units of virtual time" if "virtual_time" in st else ""),
            "faults_injected": faults,
            "reached": {k: v for k, v in sorted(st.items()) if k not in faults and k != "calls"},
            "maxima": res["max"],
            "distinct_measure": "distinct_nontrivial counts distinct 64-bit hashes of the event logs (operations, schedule, faults, results) of non-trivial episodes",
            "search_seconds": round(searching, 2),
            "chunks_done": res["chunks"], "chunks_not_started": res["unfinished"],
            "repeated_in_another_process": repeat,
            "real_components": NOTES[prop]["real"],
            "stub_components": NOTES[prop]["stub"],
            "replay": shown,
        },
        "assumptions": [
            "one execution at a time: data races on unsynchronised memory (which safe Rust rules out) are out of reach",
            "element types obey the contracts of Ord and Step except that operations may panic where a fault is injected",
        ],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in res["known"]:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop} {tier}: {tot['runs']} runs, {tot['episodes']} episodes, {res['distinct']} distinct non-trivial, "
          f"{sum(faults.values())} faults, {searching:.1f} s search, {wall:.1f} s in all, seed {seed}")
    if status == 0 and tot["runs"] == 0:
        die("nothing was run")
    sys.exit(status)


def report(prop, group, b, v, seed, key, limit):
    cls = v["class"]
    small = minimise(prop, group, b, v["choices"], cls, limit)
    s = Server(prop, group, b)
    r = s.run(small, True)
    s.close()
    if not r["viol"] or r["viol"]["class"] != cls:
        small = v["choices"]
        s = Server(prop, group, b)
        r = s.run(small, True)
        s.close()
    s = Server(prop, group, b)
    again = s.run(small)
    s.close()
    exact = bool(r["viol"]) and again["viol"] == r["viol"] and again["hash"] == r["hash"]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{b}-seed{seed}-run{v['run']}.json")
    rep = {
        "property": prop, "build": b, "seed": seed, "run": v["run"], "class": cls,
        "message": (r["viol"] or v)["msg"], "found": v["msg"], "choices": small, "hash": r["hash"],
        "choices_before_minimising": len(v["choices"]), "reproduces_exactly": exact, "tree": key,
        "trace": r["trace"],
    }
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
        f.write("\n")
    print(f"build {b}, seed {seed}, run {v['run']}: {cls}: {rep['message'][:1500]}")
    print(f"minimised from {len(v['choices'])} to {len(small)} choices; schedule and fault trace:")
    for line in (r["trace"] or [])[-30:]:
        print("    " + line[:300])
    if not exact:
        print("note: the replay does not reproduce the run exactly")
    print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    return os.path.relpath(path, HERE)


def replay(path):
    rep = json.load(open(path))
    prop, b = rep["property"], rep["build"]
    group = PLAN[prop][0]
    try:
        build(group, [b])
        s = Server(prop, group, b)
        r = s.run(rep["choices"], True)
        s.close()
    except Broken as e:
        die(str(e))
    for line in r["trace"] or []:
        print("    " + line)
    if not r["viol"]:
        print("no violation: the run ends well")
        sys.exit(0)
    same = r["viol"]["class"] == rep["class"] and r["viol"]["msg"] == rep["message"] and r["hash"] == rep["hash"]
    print(f"{r['viol']['class']}: {r['viol']['msg']}")
    print("reproduced exactly" if same else "a violation, but not the recorded execution")
    print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)


def determinism(n):
    bad = 0
    for prop, (group, builds, _) in PLAN.items():
        build(group, builds)
        for b in builds:
            one = run_search(prop, group, b, 7, 0, n, hashes=True)["hashes"]
            parts = []
            with cf.ThreadPoolExecutor(NPROC) as ex:
                step = max(1, n // 13)
                fs = [ex.submit(run_search, prop, group, b, 7, lo, min(n, lo + step), None, True) for lo in range(0, n, step)]
                for f in fs:
                    parts += f.result()["hashes"]
            diff = sum(1 for p, q in zip(one, parts) if p != q) + abs(len(one) - len(parts))
            print(f"{prop} {b}: {len(one)} runs twice, {diff} differ", flush=True)
            bad += diff
    sys.exit(1 if bad else 0)


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "setup":
        try:
            for group in ("iters", "sets", "disk", "mem", "net", "mixed", "repl"):
                build(group, sorted({b for g, bs, _ in PLAN.values() if g == group for b in bs}))
        except Broken as e:
            die(str(e))
    elif a[0] == "replay":
        replay(a[1])
    elif a[0] == "determinism":
        determinism(int(a[1]) if len(a) > 1 else 300)
    elif a[0] in PLAN:
        check(a[0])
    else:
        die(f"unknown property {a[0]}")


if __name__ == "__main__":
    main()
