"""Runner: seeded search over simulated runs for one property.

    python -m sim.run C05 [--tier quick|thorough] [--seeds A:B] [--replay FILE] [--wall SECONDS]

Every run happens in a process forked for it, so that a run is a function of
its plan (one seed = one plan) and of the code under test only.
"""
import argparse
import hashlib
import json
import os
import pickle
import re
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 120       # seconds of processor time for one simulated run (typical: 0.5)
WALL_LIMIT = 400


def load(prop):
    from . import seams, checks
    if prop in ("C13", "C14"):
        from . import mpc_checks  # noqa: F401
    if prop in ("C15", "C16", "C17", "C18", "C19", "C25", "C26"):
        from . import render_checks  # noqa: F401
    if prop == "C23":
        from . import page_checks  # noqa: F401
    if prop == "C24":
        from . import gym_checks  # noqa: F401
    return checks.CHECKS[prop]


# -- one run in a forked process ------------------------------------------
def classify(exc):
    """An exception that escaped to the harness: the library's fault or ours?"""
    from .seams import PKG
    tb = traceback.extract_tb(exc.__traceback__)
    text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    lib = [f for f in tb if f.filename.startswith(PKG)]
    if lib:
        f = lib[-1]
        return ("library_error", "%s: %s (raised through %s:%s in a supported configuration)\n%s" %
                (type(exc).__name__, str(exc)[:300], f.filename[len(PKG):].lstrip("/"), f.name, text[-1500:]))
    return None, text


def child(prop, job, wfd):
    """Runs in the forked process. job = ("seed", n) or ("plan", plan)."""
    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(devnull, fd)
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    res = {}
    try:
        from . import seams, checks
        c = checks.CHECKS[prop]
        t = time.process_time()
        plan = c.gen(job[1]) if job[0] == "seed" else job[1]
        seams.STATE.stats.clear()
        try:
            out = c.run(plan)
            res = dict(violations=out.violations, stats=dict(out.stats + seams.STATE.stats),
                       states=[hashlib.sha256(repr(s).encode()).hexdigest()[:12] for s in out.states],
                       log=hashlib.sha256("".join(out.log).encode()).hexdigest()[:16], n=len(out.log),
                       hours=out.sim_hours, extra=out.extra)
        except BaseException as e:
            kind, text = classify(e)
            if isinstance(e, checks.LibraryError):
                kind, text = e.args[0]
            if kind is None:
                res = dict(harness=text)
            else:
                res = dict(violations=[(kind, text)], stats={}, states=[], log="", n=0, hours=0.0, extra={})
        res["cpu"] = time.process_time() - t
    except BaseException:
        res = dict(harness=traceback.format_exc())
    try:
        data = pickle.dumps(res)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    finally:
        os._exit(0)


class Pool:
    def __init__(self, prop, workers):
        self.prop, self.workers = prop, workers
        self.live = {}  # fd -> [pid, job, buf, t0]

    def start(self, job):
        r, w = os.pipe()
        sys.stdout.flush(), sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in self.live:
                os.close(fd)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            child(self.prop, job, w)
        os.close(w)
        self.live[r] = [pid, job, [], time.time()]

    def wait(self):
        """Finished (job, result) pairs (at least one, unless nothing is running)."""
        done = []
        while self.live and not done:
            ready, _, _ = select.select(list(self.live), [], [], 5.0)
            for fd in ready:
                data = os.read(fd, 1 << 20)
                if data:
                    self.live[fd][2].append(data)
                    continue
                pid, job, buf, _ = self.live.pop(fd)
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                try:
                    res = pickle.loads(b"".join(buf))
                except Exception:
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
                    if sig == signal.SIGXCPU:
                        res = self.no_answer("no answer after %d s of processor time" % CPU_LIMIT)
                    else:
                        res = dict(harness="the run ended without a result (status %d)" % status)
                self.reap(pid)
                done.append((job, res))
            for fd, (pid, job, _, t0) in list(self.live.items()):
                if time.time() - t0 > WALL_LIMIT:
                    self.kill(fd)
                    done.append((job, self.no_answer("stuck: no answer within %d s" % WALL_LIMIT)))
        return done

    @staticmethod
    def no_answer(text):
        return dict(violations=[("no_answer", text)], stats={}, states=[], log="", n=0, hours=0.0, extra={}, cpu=0.0)

    @staticmethod
    def reap(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass

    def kill(self, fd):
        pid = self.live.pop(fd)[0]
        os.close(fd)
        self.reap(pid)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)

    def close(self):
        for fd in list(self.live):
            self.kill(fd)


def run_one(prop, job):
    p = Pool(prop, 1)
    p.start(job)
    return p.wait()[0][1]


# -- minimisation -----------------------------------------------------------
def kinds(res):
    return [k for k, _ in res.get("violations") or []]


def minimise(prop, plan, kind, deadline, workers):
    """Smaller plans with a violation of the same kind (delta debugging on the check's own reductions)."""
    from . import checks
    c = checks.CHECKS[prop]
    tried = 0
    best = plan
    progress = True
    while progress and time.time() < deadline:
        progress = False
        cands = c.shrink(best)
        pool = Pool(prop, workers)
        it = iter(cands)
        pending = []
        exhausted = False
        while True:
            while len(pool.live) < workers and not exhausted:
                try:
                    cand = next(it)
                except StopIteration:
                    exhausted = True
                    break
                pool.start(("plan", cand))
                tried += 1
            if not pool.live or time.time() > deadline:
                break
            hit = None
            for job, res in pool.wait():
                if kind in kinds(res):
                    if hit is None or len(json.dumps(job[1])) < len(json.dumps(hit)):
                        hit = job[1]
            if hit is not None and len(json.dumps(hit)) < len(json.dumps(best)):
                best, progress = hit, True
                break
        pool.close()
    return best, tried


# -- known findings ---------------------------------------------------------
def known_findings(prop):
    """Lines  finding: property=<id> kind=<kind> match=<regular expression> :: <text>"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def split_known(viol, known):
    new, hits = [], []
    for k, d in viol:
        for kk, rx, text in known:
            if k == kk and rx.search(d):
                hits.append(text)
                break
        else:
            new.append((k, d))
    return new, hits


# -- main -------------------------------------------------------------------
def replay(path):
    r = json.load(open(path))
    prop = r["property"]
    c = load(prop)
    if r.get("aggregate"):
        viol, n = aggregate_only(prop, c, r["aggregate"])
    else:
        res = run_one(prop, ("plan", r["plan"]))
        if "harness" in res:
            print(res["harness"])
            return 2
        viol = res["violations"]
        print("history digest %s (recorded %s)" % (res["log"], r.get("log")))
    viol, _ = split_known(viol, known_findings(prop))
    for k, d in viol:
        print("%s: %s" % (k, d))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation")
    return 0


def aggregate_only(prop, c, seeds):
    pool = Pool(prop, os.cpu_count() or 4)
    todo = list(range(seeds[0], seeds[1]))
    extras = []
    while todo or pool.live:
        while todo and len(pool.live) < pool.workers:
            pool.start(("seed", todo.pop(0)))
        for job, res in pool.wait():
            if "extra" in res:
                extras.append((job[1], res))
    return c.aggregate(extras), len(extras)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seeds")
    ap.add_argument("--replay")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--digests", help="print the history digests of these seeds (A:B) and exit")
    ap.add_argument("--dump", type=int, help="print the plan of this seed and exit")
    a = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "sim.run"] + sys.argv[1:])
    t_start = time.time()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    c = load(prop)
    workers = max(2, os.cpu_count() or 4)
    if a.dump is not None:
        print(json.dumps(c.gen(a.dump)))
        return 0
    if a.digests:
        lo, hi = map(int, a.digests.split(":"))
        for s in range(lo, hi):
            r = run_one(prop, ("seed", s))
            print(s, r.get("log"), r.get("n"))
        return 0
    base = int(os.environ.get("VERIF_SEED", "1"))
    quick = a.tier != "thorough"
    if a.seeds:
        lo, hi = map(int, a.seeds.split(":"))
    else:
        lo = base * 10 ** 6
        hi = lo + (c.n_quick if quick else c.n_thorough)
    wall = a.wall or float(os.environ.get("VERIF_WALL", 0)) or (c.meta.get("wall", 45.0) if quick else 3600.0)

    known = known_findings(prop)
    pool = Pool(prop, workers)
    stats, states, logs, samples, hours, cpu = Counter(), set(), set(), [], 0.0, 0.0
    done, nontrivial, harness, extras, known_hits = 0, 0, [], [], Counter()
    first = None
    nxt = lo
    t0 = time.time()
    digests = {}
    while (nxt < hi and first is None) or pool.live:
        while nxt < hi and len(pool.live) < workers and first is None and time.time() - t0 < wall:
            pool.start(("seed", nxt))
            nxt += 1
        if not pool.live:
            break
        for job, res in pool.wait():
            if "harness" in res:
                harness.append((job[1], res["harness"]))
                continue
            done += 1
            stats.update(res["stats"])
            states.update(res["states"])
            hours += res["hours"]
            cpu += res["cpu"]
            digests[job[1]] = res["log"]
            useful = res["n"] >= 2 and (res["stats"].get("op_step") or res["stats"].get("events") or
                                        res["stats"].get("op_reset", 0) > 1)
            if useful and res["log"] not in logs:
                nontrivial += 1
                if len(samples) < 2:
                    samples.append({"seed": job[1], "plan": c.gen(job[1]), "history_digest": res["log"]})
            logs.add(res["log"])
            if res["extra"]:
                extras.append((job[1], res))
            new, hits = split_known(res["violations"], known)
            known_hits.update(hits)
            if new and (first is None or job[1] < first[0]):
                first = (job[1], new, res["log"])
    t_search = time.time() - t0

    viol, rp = None, None
    agg = []
    if first is None:
        agg, extra_cov = c.aggregate(extras), {}
        agg, _ = split_known(agg, known)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    minim = {}
    if first is not None:
        seed, vs, log = first
        kind = vs[0][0]
        plan = c.gen(seed)
        small, tried = minimise(prop, plan, kind, time.time() + (60 if quick else 300), workers)
        res = run_one(prop, ("plan", small))
        if kind not in kinds(res):
            small, res = plan, run_one(prop, ("plan", plan))
        again = run_one(prop, ("plan", small))
        vs = [v for v in res.get("violations", []) if v[0] == kind] or vs
        rp = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, seed))
        json.dump({"property": prop, "seed": seed, "kind": kind, "detail": vs[0][1], "plan": small,
                   "log": res.get("log"), "reproduced": again.get("violations") == res.get("violations") and
                   again.get("log") == res.get("log") and kind in kinds(res)}, open(rp, "w"), indent=1)
        minim = {"seed": seed, "tried": tried, "size_before": len(json.dumps(plan)), "size_after": len(json.dumps(small))}
        viol = (kind, vs[0][1])
    elif agg:
        rp = os.path.join(VERIF, "replays", "%s-aggregate.json" % prop)
        json.dump({"property": prop, "aggregate": [lo, nxt], "kind": agg[0][0], "detail": agg[0][1]}, open(rp, "w"), indent=1)
        viol = agg[0]

    # determinism of the machinery itself: the same seeds again, in fresh processes of another hash seed
    det = None
    if viol is None and not harness and digests:
        det = determinism(prop, c, sorted(digests)[:: max(1, len(digests) // 6)][:6], digests)
        if det.get("differ") and c.meta.get("replay_is_property"):
            s = det["differ"][0]
            rp = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, s))
            json.dump({"property": prop, "seed": s, "kind": "other_process", "plan": c.gen(s),
                       "detail": "the same seed gives another history in another process (PYTHONHASHSEED=%s)" % det["hashseed"]},
                      open(rp, "w"), indent=1)
            viol = ("other_process", "seed %d gives another history in a process with another hash seed" % s)

    wall_s = time.time() - t_start
    faults_seen = {k: v for k, v in sorted(stats.items()) if not k.startswith(("op_", "raised_", "solver_clock_read"))}
    evidence = {
        "property": prop, "tier": "quick" if quick else "thorough", "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": nontrivial,
            "rule": "One case is one simulated run: a plan drawn from the seed (configuration, operations, schedule, faults) "
                    "executed against the real code with the property's oracle after every operation. Counted when its "
                    "recorded history (digest of everything observable) differs from all earlier ones and it contains at "
                    "least two recorded operations, one of them an accepted call or delivered event.",
            "samples": samples or [{"seed": lo, "plan": c.gen(lo)}],
            "seeds": [lo, nxt], "runs_per_hour": round(done / max(t_search, 1e-9) * 3600),
            "cpu_seconds": round(cpu, 1), "simulated_hours": round(hours, 3),
            "injected_and_observed": faults_seen,
            "operations": {k: v for k, v in sorted(stats.items()) if k.startswith(("op_", "raised_"))},
            "distinct_states": len(states), "state_measure": c.meta.get("measure", "status of the environment model x "
                               "operation x outcome x kinds of injected fault"),
            "distinct_histories": len(logs), "determinism_check": det, "minimisation": minim,
            "real_components": c.meta.get("real", "all of gym_anm (Python), NumPy, SciPy, CVXPY, OSQP"),
            "stubbed_components": c.meta.get("stub", "outcome of failing linear/QP solver calls, wall clock, the clock the "
                                             "QP solver tunes itself by, global random generators, the user's sampling "
                                             "functions"),
            "known_findings_seen": dict(known_hits),
        },
        "assumptions": c.meta.get("assumptions", ["single-threaded BLAS", "the QP solver reads the clock only through its "
                                                  "adaptive interval"]),
        "wall_s": round(wall_s, 2), "violations": 0 if viol is None else 1,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", "%s.json" % prop)
    json.dump(evidence, open(ev + ".tmp", "w"), indent=1, default=str)
    os.replace(ev + ".tmp", ev)
    print("%s: %d runs, %d distinct, %d states, %.1f s" % (prop, done, nontrivial, len(states), wall_s))
    for text, n in known_hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if viol is not None:
        print("%s: %s" % viol)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if harness:
        print("HARNESS ERROR in %d runs, first (seed %d):\n%s" % (len(harness), harness[0][0], harness[0][1]))
        return 2
    if done == 0:
        print("no run finished")
        return 2
    return 0


def determinism(prop, c, seeds, digests):
    if not seeds:
        return {}
    hs = "4711"
    env = dict(os.environ, PYTHONHASHSEED=hs)
    procs = [(s, subprocess.Popen([sys.executable, "-m", "sim.run", prop, "--digests", "%d:%d" % (s, s + 1)], cwd=VERIF, env=env,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for s in seeds]
    differ = []
    for s, p in procs:
        try:
            out = p.communicate(timeout=WALL_LIMIT)[0].split()
        except subprocess.TimeoutExpired:
            p.kill()
            continue
        if len(out) >= 2 and out[1] != digests[s]:
            differ.append(s)
    return {"seeds_rerun_in_fresh_process": len(seeds), "hashseed": hs, "differ": differ}


if __name__ == "__main__":
    sys.exit(main())
