#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property by symbolic
execution of /repo's current code (see DESIGN.md).

exit 0  every obligation discharged within the stated bounds
exit 1  VIOLATION property=<id> replay=<path>: a counterexample the solver found
        and the native build of the real code reproduced
exit 2  no verdict (build failure, bound or time exhausted, engine limitation,
        counterexample that does not reproduce)
"""
import json, os, subprocess, sys, threading, time, queue, shutil

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import ws
from props import PROPS
from bounds import B as BOUNDS

VERIF = ws.VERIF
T0 = time.time()


def say(*a):
    print(*a, flush=True)


def unhex(s):
    return bytes.fromhex(s)


def known_findings(pid):
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


class Native:
    """runs harness entries natively on given inputs"""

    def __init__(self, binary, work):
        self.b, self.work, self.n = binary, work, 0
        self.lock = threading.Lock()

    def run(self, runs, timeout=120):
        with self.lock:
            self.n += 1
            path = f"{self.work}/replay-{self.n}.txt"
        with open(path, "w") as f:
            for entry, arg, inputs in runs:
                f.write(f"run {entry} {arg}\n")
                for i in inputs:
                    f.write(f"in {i}\n")
        out, died = [], None
        try:
            r = subprocess.run([self.b, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout,
                               preexec_fn=limit_mem)
            text, rc = r.stdout.decode(), r.returncode
        except subprocess.TimeoutExpired as e:
            text, rc = (e.stdout or b"").decode(), "timeout"
        begun = 0
        for l in text.splitlines():
            if l.startswith("begin "):
                begun += 1
            if l.startswith("result "):
                d = {}
                for kv in l.split(" ")[2:]:
                    k, _, v = kv.partition("=")
                    d[k] = v
                out.append({
                    "mismatch": d["mismatch"] == "true", "assume": d["assume"] == "true", "over": int(d["over"]),
                    "panic": unhex(d["panic"]).decode(errors="replace"),
                    "fails": [unhex(x).decode() for x in d["fails"].split(",") if x],
                    "obs": [x[1:] for x in d["obs"].split(",") if x],
                    "died": None})
        if len(out) < len(runs):
            out.append({"mismatch": False, "assume": False, "over": 0, "panic": "", "fails": [], "obs": [],
                        "died": f"process ended with {rc}" if begun > len(out) else None})
        return out


def limit_mem():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def reproduces(label, r):
    if label.startswith("check:"):
        return label[6:] in r["fails"]
    if r["assume"] or r["mismatch"]:
        return False
    if label.startswith("allocation"):
        return r["over"] > 0 or r["died"] is not None
    return bool(r["panic"]) or r["died"] is not None


def matches_known(known, entry, label):
    for k in known:
        if k["label"] == label and k.get("entry") in (None, entry):
            return k
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    keep_going = "--all" in sys.argv
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    P = PROPS[pid]
    crate = P["crate"]
    budget = float(os.environ.get("VERIF_BUDGET", P.get("budget", 600 if tier == "quick" else 3300)))
    ev_path = f"{VERIF}/evidence/{pid}.json"
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    if os.path.exists(ev_path) and not only:
        os.unlink(ev_path)

    with ws.Lock():
        try:
            ws.layout()
            os.makedirs(f"{ws.WORK}/log", exist_ok=True)
            res = {}

            def job(k, f, *a):
                try:
                    res[k] = f(*a)
                except BaseException as e:
                    res[k] = e
            ths = [threading.Thread(target=job, args=x) for x in
                   (("engine", ws.build_engine), ("sym", ws.build_sym, crate), ("nat", ws.build_nat, crate))]
            [t.start() for t in ths]
            [t.join() for t in ths]
            for k, v in res.items():
                if isinstance(v, BaseException):
                    raise v
            # private copies: another check may rebuild these
            work = f"{ws.WORK}/run/{pid}-{os.getpid()}"
            os.makedirs(work, exist_ok=True)
            ll, nat = f"{work}/code.ll", f"{work}/native"
            os.link(res["sym"], ll)
            shutil.copy(res["nat"], nat)
            engine = f"{work}/symir"
            shutil.copy(res["engine"], engine)
        except (ws.BuildError, subprocess.TimeoutExpired, OSError) as e:
            say(f"ERROR property={pid} build failed: {e}")
            return 2
    t_build = time.time() - T0
    try:
        return explore(pid, tier, only, keep_going, jobs, P, budget, ev_path, work, ll, nat, engine, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(pid, tier, only, keep_going, jobs, P, budget, ev_path, work, ll, nat, engine, t_build):
    known = known_findings(pid)
    native = Native(nat, work)
    shards = []
    for s in P["shards"]:
        args = s.get("args", [0])
        if tier == "thorough":
            args = list(args) + list(s.get("thorough", []))
        for a in args:
            shards.append((s["entry"], a))
    if only:
        shards = [(e, a) for e, a in shards if only in (e, f"{e}:{a}")]
    q = queue.Queue()
    for i, s in enumerate(shards):
        q.put((i, s))
    results = [None] * len(shards)
    stop = threading.Event()
    confirmed, unrepro, known_hit = [], [], {}
    procs = set()
    lock = threading.Lock()

    def on_violation(entry, arg, ok, inputs, label):
        r = native.run([(entry, arg, inputs)])[0]
        rep = reproduces(label, r)
        if not rep:
            with lock:
                unrepro.append((entry, arg, inputs, label, ok, r))
            return
        k = matches_known(known, entry, label)
        with lock:
            if k:
                known_hit.setdefault(k["id"], k)
            else:
                confirmed.append((entry, arg, inputs, label, r))
        if not k and not keep_going:
            stop.set()
            with lock:
                for p in procs:
                    p.kill()

    def worker():
        while not stop.is_set():
            try:
                i, (entry, arg) = q.get_nowait()
            except queue.Empty:
                return
            left = budget - (time.time() - T0)
            if left < 2:
                results[i] = {"errors": {"not started: time budget used up": 1}}
                continue
            out = f"{work}/r{i}.json"
            p = subprocess.Popen([engine, "--ll", ll, "--entry", entry, "--arg", str(arg), "--out", out, "--time",
                                  str(left), "--traces", "12", "--mem", str(P.get("mem", 3300))],
                                 stdout=subprocess.PIPE, stderr=open(f"{work}/e{i}.txt", "w"), text=True)
            with lock:
                procs.add(p)
                if stop.is_set():
                    p.kill()
            seen_ok = set()
            for l in p.stdout:
                if l.startswith("V "):
                    _, ok, ins, label = l.rstrip("\n").split(" ", 3)
                    if (label, ok) in seen_ok and ok == "true":
                        continue
                    seen_ok.add((label, ok))
                    on_violation(entry, arg, ok == "true", ins.split(".")[:-1], label)
            rc = p.wait()
            with lock:
                procs.discard(p)
            try:
                results[i] = json.load(open(out))
            except Exception:
                err = open(f"{work}/e{i}.txt").read()[-800:]
                results[i] = {"errors": {"not finished: stopped at the time budget" if over else f"engine ended with {rc}: {err}": 1}}

    over = []

    def watchdog():  # a Z3 call that ignores its own time limit must not outlive the budget
        if not stop_wd.wait(max(1, budget + 20 - (time.time() - T0))):
            with lock:
                over.append(1)
                for p in procs:
                    p.kill()
    stop_wd = threading.Event()
    wd = threading.Thread(target=watchdog, daemon=True)
    wd.start()
    ths = [threading.Thread(target=worker) for _ in range(jobs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    stop_wd.set()

    ok_res = [(s, r) for s, r in zip(shards, results) if r]
    errors, incomplete, reached, checks, fns = {}, {}, {}, {}, set()
    tot = dict.fromkeys("paths assume_killed forks insts checks_symbolic hash_sym hash_conc".split(), 0)
    sol = dict.fromkeys("queries cache_hits domain_decided model_reuse sat unsat unknown time_s".split(), 0)
    maxq, solver_v, per = 0.0, "", []
    for (e, a), r in ok_res:
        for k, v in r.get("errors", {}).items():
            if k.startswith("not "):
                incomplete[f"{e}:{a}: {k}"] = v
                continue
            errors[f"{e}:{a}: {k}"] = errors.get(f"{e}:{a}: {k}", 0) + v
        if r.get("truncated"):
            incomplete[f"{e}:{a}: paths left at the time or memory limit"] = r["truncated"]
        for k, v in r.get("reached", {}).items():
            reached[k] = reached.get(k, 0) + v
        for k, v in r.get("checks", {}).items():
            checks[k] = checks.get(k, 0) + v
        fns.update(r.get("functions", []))
        for k in tot:
            tot[k] += r.get(k, 0)
        for k in sol:
            sol[k] += r.get("solver", {}).get(k, 0)
        maxq = max(maxq, r.get("solver", {}).get("max_query_s", 0))
        solver_v = r.get("solver", {}).get("version", solver_v)
        per.append({"entry": e, "arg": a, "paths": r.get("paths", 0), "wall_s": r.get("wall_s", 0),
                    "rss_mb": r.get("rss_mb", 0), "queries": r.get("solver", {}).get("queries", 0),
                    "solver_s": r.get("solver", {}).get("time_s", 0)})

    # translation check: replay sampled paths natively, observations must agree
    validated, bad_traces, samples = 0, [], []
    if not confirmed:
        runs, want = [], []
        for (e, a), r in ok_res:
            for t in r.get("traces", []):
                runs.append((e, a, t["inputs"]))
                want.append(t["observes"])
        pos = 0
        while pos < len(runs):
            rs = native.run(runs[pos:], timeout=300)
            for r, run, w in zip(rs, runs[pos:], want[pos:]):
                if r["died"] or r["mismatch"] or r["assume"] or r["panic"] or r["obs"] != w or \
                        any(not matches_known(known, run[0], "check:" + f) for f in r["fails"]):
                    bad_traces.append((run, w, r))
                else:
                    validated += 1
                    if len(samples) < 6 and sum(map(len, run[2])) < 600:
                        samples.append({"entry": run[0], "arg": run[1], "inputs": run[2], "observed": r["obs"][:6]})
            pos += max(1, len(rs))

    for k in known_hit.values():
        say(f"KNOWN-FINDING: property={pid} {k['what']}")
    missing = [l for l in P.get("reach", []) if l not in reached] if not only and not incomplete else []
    # what was explored held, but less was explored than planned: said here and in the evidence
    for k, v in list(incomplete.items())[:20]:
        say(f"INCOMPLETE property={pid} {k} x{v}")
    viol = 0
    rc = 0
    if confirmed:
        viol = len(confirmed)
        d = f"{VERIF}/evidence/replay"
        os.makedirs(d, exist_ok=True)
        for n, (e, a, ins, label, r) in enumerate(confirmed):
            path = f"{d}/{pid}-{n}.txt"
            with open(path, "w") as f:
                f.write(f"# property {pid}: {label}\n# native outcome: panic={r['panic']!r} fails={r['fails']} over={r['over']} died={r['died']}\n")
                f.write(f"# re-run: python3 /verif/replay.py {pid} {path}\n")
                f.write(f"run {e} {a}\n")
                for i in ins:
                    f.write(f"in {i}\n")
            say(f"  {label} in {e}({a}): {r['panic'] or r['fails'] or r['died'] or r['over']}")
            say(f"VIOLATION property={pid} replay={path}")
        rc = 1
    else:
        why = []
        why += [f"{k} x{v}" for k, v in errors.items()]
        why += [f"counterexample not reproduced natively: {u[3]} in {u[0]}({u[1]}) model_confirmed={u[4]} inputs={u[2]} native={u[5]}"
                for u in unrepro[:8]]
        why += [f"trace differs natively: {t}" for t in bad_traces[:4]]
        if missing:
            why.append(f"vacuity: never reached {missing}")
        if why:
            rc = 2
            for w in why[:40]:
                say(f"ERROR property={pid} {w}"[:3000])
    repo_fns = sorted(f for f in fns if any(x in f for x in ("grovedb", "symapi")) or f.startswith("h_"))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P.get("level", "model_checking"),
        "coverage": {
            "states": tot["paths"] + tot["assume_killed"], "transitions": tot["insts"],
            "traces_validated_against_impl": validated, "samples": samples or [{"entry": e, "arg": a} for e, a in shards[:3]],
            "exhaustive": rc == 0 and not incomplete, "not_explored": [f"{k} x{v}" for k, v in incomplete.items()],
            "method": "symbolic execution of the LLVM IR rustc emits for /repo's current sources; every branch and assertion decided by Z3 over all values of the symbolic inputs",
            "entries": per, "paths_completed": tot["paths"], "paths_cut_by_assumptions": tot["assume_killed"],
            "forks": tot["forks"], "ir_instructions_executed": tot["insts"],
            "assertions_with_symbolic_condition": tot["checks_symbolic"], "assertions_evaluated": checks,
            "labels_reached": reached, "hashes_symbolic": tot["hash_sym"], "hashes_concrete": tot["hash_conc"],
            "queries": {**sol, "max_query_s": maxq, "solver": solver_v}, "solver_time_s": sol["time_s"],
            "functions_encoded_count": len(fns), "functions_encoded": repo_fns[:400],
            "bounds": BOUNDS[pid][1], "outside_bounds": BOUNDS[pid][2],
            "known_findings_seen": sorted(known_hit), "inconclusive": rc == 2, "build_s": round(t_build, 2),
        },
        "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2), "violations": viol,
    }
    if not only:
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1)
    say(f"{pid} {tier}: rc={rc} paths={tot['paths']} cut={tot['assume_killed']} forks={tot['forks']} insts={tot['insts']} queries={sol['queries']} "
        f"solver={sol['time_s']:.1f}s traces={validated} build={t_build:.1f}s wall={time.time()-T0:.1f}s")
    for p in sorted(per, key=lambda x: -x["wall_s"])[:int(os.environ.get("VERIF_TOP", "4"))]:
        say(f"   {p['entry']}({p['arg']}): {p['wall_s']:.1f}s {p['paths']} paths {p['queries']} queries solver {p['solver_s']:.1f}s {p['rss_mb']} MB")
    if os.environ.get("VERIF_VERBOSE"):
        say("   reached", reached, "checks", checks)
    return rc


COMMON_ASSUMPTIONS = [
    "rustc/LLVM 23 translate /repo's sources faithfully to the IR that is executed (checked on sampled paths by native replay)",
    "the engine in /verif/engine implements LLVM IR semantics (every satisfying model is re-evaluated, sampled paths are replayed natively)",
    "BLAKE3 is modelled as a collision-free function; concrete inputs use the real BLAKE3",
    "integer overflow is checked (debug semantics): an overflow is reported as a panic",
]

if __name__ == "__main__":
    sys.exit(main())
