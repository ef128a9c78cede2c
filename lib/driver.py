# Runs a simulator in many worker processes, reproduces, minimises and reports.
# A simulator is a command line that understands
#   run PROP BASE FROM COUNT STEP TIER LIMIT | gen PROP SEED TIER | seed PROP BASE INDEX | exec FILE [-v]
import os, re, subprocess, sys, tempfile, threading, time
from . import common
from .common import BUILD, JOBS, CheckError

# Everything that can go on without end is counted in steps. This is for the rest, say an endless loop in a system library.
STUCK = "hang: no end in sight"
PATIENCE = 150

class Sim:
    def __init__(self, cmd, env=None):
        self.cmd = cmd
        self.env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "LOC_", "PYTHON", "LD_"))}
        self.env.update(TZ="UTC", LC_ALL="C")
        self.env.update(env or {})

def classify(rc, out):
    """What went wrong in this run, or None. The first word tells the class."""
    m = re.search(r"^VIOL \S+ (.*)$", out, re.M)
    if m: return m.group(1)
    m = re.search(r"^HANG (.*)$", out, re.M)
    if m: return "hang: " + m.group(1)
    m = re.search(r"SUMMARY: \w*Sanitizer: (\S+)(.*)", out)
    if m:
        fn = re.search(r" in (\S+)$", m.group(2))
        return "memory: %s in %s" % (m.group(1), fn.group(1) if fn else "?")
    m = re.search(r"runtime error: (.*)", out)
    if m: return "undefined: " + m.group(1)
    if rc < 0: return "crash: signal %d" % -rc
    if rc not in (0, 1): return "crash: exit status %d" % rc
    return None

def exec_plan(sim, text, timeout=90, verbose=False, cap=None):
    with tempfile.NamedTemporaryFile("w", suffix=".plan", dir=BUILD) as f:
        f.write(text)
        f.flush()
        try:
            p = subprocess.run(sim.cmd + ["exec", f.name] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                env=dict(sim.env, LOCSIM_CAP=str(cap)) if cap else sim.env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return STUCK, None, ""
    out = p.stdout.decode(errors="replace")
    m = re.search(r"^(?:OK|VIOL) ([0-9a-f]{16})", out, re.M)
    return classify(p.returncode, out), m.group(1) if m else None, out

def cls(msg):
    return msg.split(":")[0] if msg else None

class Worker:
    def __init__(self, sim, prop, base, frm, count, step, tier, limit, totals):
        self.__dict__.update(sim=sim, prop=prop, base=base, frm=frm, count=count, step=step, tier=tier, limit=limit, totals=totals)
        self.idx = self.seed = None
        self.violation = None
        self.stuck = False
        self.first = frm
    def start(self):
        self.p = subprocess.Popen(self.sim.cmd + ["run", self.prop, str(self.base), str(self.frm), str(self.count), str(self.step), self.tier, str(self.limit)],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.sim.env, text=True, errors="replace", bufsize=1)
        self.seen = time.time()
        self.t = threading.Thread(target=self.read)
        self.t.start()
    def read(self):
        tail = []
        T = self.totals
        for l in self.p.stdout:
            self.seen = time.time()
            if l.startswith("R "):
                _, i, s = l.split()
                self.idx, self.seed = int(i), int(s)
                tail = []
            elif l.startswith("H "):
                T["hashes"].add(l[2:18])
            elif l.startswith("STAT "):
                _, k, v = l.split()
                with T["lock"]:
                    if k in ("edges", "maxsteps", "edges_total"): T["stat"][k] = max(T["stat"].get(k, 0), int(v))
                    else: T["stat"][k] = T["stat"].get(k, 0) + int(v)
            elif l.startswith(("FAULT ", "SHAPE ")):
                a, k, v = l.rsplit(" ", 1)[0].split(" ", 1) + [l.rsplit(" ", 1)[1]]
                with T["lock"]: T[a][k] = T[a].get(k, 0) + int(v)
            else:
                tail.append(l)
                if len(tail) > 400: del tail[:200]
        rc = self.p.wait()
        if self.stuck:
            self.violation = STUCK
            T["stop"].set()
        elif rc and not T["stop"].is_set():
            self.violation = classify(rc, "".join(tail)) or "crash: exit status %d" % rc
            T["stop"].set()

def simulate(sim, prop, base, tier, count, limit):
    totals = {"hashes": set(), "stat": {}, "FAULT": {}, "SHAPE": {}, "lock": threading.Lock(), "stop": threading.Event()}
    per = (count + JOBS - 1) // JOBS
    ws = [Worker(sim, prop, base, w, per, JOBS, tier, limit, totals) for w in range(JOBS)]
    for w in ws: w.start()
    while any(w.t.is_alive() for w in ws):
        if totals["stop"].is_set():
            # give the others a moment, the one with the lowest number wins
            time.sleep(0.3)
            for w in ws:
                if w.p.poll() is None: w.p.kill()
            for w in ws: w.t.join()
            break
        for w in ws:
            if w.t.is_alive() and time.time() - w.seen > PATIENCE:
                w.stuck = True
                w.p.kill()
        time.sleep(0.05)
    for w in ws: w.t.join()
    bad = [w for w in ws if w.violation]
    return totals, bad

def gen(sim, prop, seed, tier):
    try: return subprocess.run(sim.cmd + ["gen", prop, str(seed), tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=sim.env, timeout=90)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess([], 1, b"")

def plan_of(sim, prop, seed, tier):
    p = gen(sim, prop, seed, tier)
    # A plan is calibrated by running it without any faults: this might already be what fails
    return p.stdout.decode(errors="replace"), p.returncode

def seeds_before(w, k):
    """idx of the k runs this worker did before the last one"""
    out = []
    i = w.idx - k * w.step
    while i < w.idx:
        if i >= w.first: out.append(i)
        i += w.step
    return out

def reproduce(sim, prop, w, base, tier, deadline):
    """Finds a text that fails in a fresh process - twice, and in exactly the same way"""
    weak = []
    def twice(text):
        a = exec_plan(sim, text)
        if not a[0] or cls(a[0]) != cls(w.violation): return None
        b = exec_plan(sim, text)
        if b[:2] != a[:2]:
            # Code that uses what it must not use, like uninitialised memory, does not have to do the same twice
            if b[0]: weak.append((text, a))
            return None
        return a
    text, rc = plan_of(sim, prop, w.seed, tier)
    if rc:
        # died while calibrating
        text = subprocess.run(sim.cmd + ["gen", prop, str(w.seed), tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=dict(sim.env, LOCSIM_NOCAL="1"), timeout=90).stdout.decode(errors="replace")
    r = twice(text)
    if r: return text, r
    for k in (1, 4, 32, 256):
        if time.time() > deadline: break
        parts = []
        for i in seeds_before(w, k):
            o = subprocess.run(sim.cmd + ["seed", prop, str(base), str(i)], stdout=subprocess.PIPE, env=sim.env).stdout.decode().strip()
            parts.append(plan_of(sim, prop, o, tier)[0])
        full = "===\n".join(parts + [text])
        r = twice(full)
        if r: return full, r
    if weak: return weak[0]
    return None

def minimise(sim, text, want, budget):
    deadline = time.time() + budget
    lines = text.rstrip("\n").split("\n")
    def fails(ls):
        if time.time() > deadline: return False
        r = exec_plan(sim, "\n".join(ls) + "\n", timeout=30, cap=500000000 if cls(want) == "hang" else None)
        return cls(r[0]) == cls(want)
    head = [l for l in lines if l.startswith("run ")] if "===" not in text else []
    body = [l for l in lines if l not in head]
    body = common.ddmin(body, lambda ls: fails(head + ls), deadline)
    # drop single faults
    for i, l in enumerate(list(body)):
        if " ! " not in l or time.time() > deadline: continue
        a, f = l.split(" ! ", 1)
        fs = f.split()
        for x in list(fs):
            rest = [y for y in fs if y is not x]
            cand = a + (" ! " + " ".join(rest) if rest else "")
            if fails(head + body[:i] + [cand] + body[i + 1:]):
                fs = rest
                body[i] = cand
    return "\n".join(head + body) + "\n"

def check(build, prop, tier, seed, counts, rule, real, stub, assumptions):
    t0 = time.time()
    sim = build()
    t_build = time.time() - t0
    count = counts[0 if tier == "quick" else 1]
    limit = 200 if tier == "quick" else 3000
    limit = float(os.environ.get("VERIF_LIMIT", limit))
    t1 = time.time()
    totals, bad = simulate(sim, prop, seed, tier, count, limit)
    t_sim = time.time() - t1
    known = common.known_findings(prop)
    violations = 0
    status = 0
    replay = None
    if bad:
        bad = sorted((w for w in bad if w.idx is not None), key=lambda w: w.idx)
        if not bad:
            raise CheckError("a worker failed before its first run")
        deadline = time.time() + 120
        for w in bad:
            rep = reproduce(sim, prop, w, seed, tier, deadline)
            if rep: break
        if not rep:
            # It has happened, even if it depends on something that cannot be controlled from here
            w = bad[0]
            rep = (plan_of(sim, prop, w.seed, tier)[0], (w.violation + " (not in every execution)", None, ""))
        text, r = rep
        if hasattr(sim, "concretise"):
            t2 = sim.concretise(text)
            r2 = exec_plan(sim, t2) if t2 else (None,)
            if cls(r2[0]) == cls(r[0]): text, r = t2, r2
        small = minimise(sim, text, r[0], float(os.environ.get("VERIF_MINIMISE", 60 if tier == "quick" else 300)))
        a = exec_plan(sim, small)
        b = exec_plan(sim, small)
        if not a[0] or (a[:2] != b[:2] and r[1]): small, a = text, r
        fn = common.save_replay(prop, "# property %s\n# seed %d (run %d of base seed %d, %s)\n# %s\n# replay with: ./check.py %s --replay <this file>\n%s"
            % (prop, w.seed, w.idx, seed, tier, a[0].replace("\n", " "), prop, small))
        violations = 1
        for m, what in known:
            if m in a[0]:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
                break
        else:
            print("%s (seed %d)" % (a[0], w.seed))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
            status = 1
        replay = fn
    st = totals["stat"]
    runs = st.get("runs", 0)
    sample_seed = subprocess.run(sim.cmd + ["seed", prop, str(seed), "0"], stdout=subprocess.PIPE, env=sim.env).stdout.decode().strip()
    sample = plan_of(sim, prop, sample_seed, tier)[0].split("\n")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(totals["hashes"]),
        "rule": rule + ". Distinct: different event histories (hash over all operations, results and injected faults).",
        "samples": [{"seed": int(sample_seed), "plan": [l[:200] for l in sample[:40]] + (["... %d more lines" % (len(sample) - 40)] if len(sample) > 40 else [])}],
        "seeds": {"base": seed, "first": 0, "count": runs},
        "runs_per_hour": int(runs / max(t_sim, 0.01) * 3600),
        "operations": st.get("ops", 0),
        "answers_compared": st.get("checks", 0),
        "runs_hit_by_faults": st.get("faulted", 0),
        "operations_that_reported_an_injected_error": st.get("errors", 0),
        "faults_injected": dict(sorted(totals["FAULT"].items())),
        "fault_outcomes": dict(sorted(totals["SHAPE"].items())),
        "simulated_seconds": round(st.get("sim_ns", 0) / 1e9, 1),
        "seam_calls": st.get("seam", 0),
        "library_steps": st.get("steps", 0),
        "largest_operation_steps": st.get("maxsteps", 0),
        "code_edges_reached": "%d of %d" % (st.get("edges", 0), st.get("edges_total", 0)),
        "real_code": real, "stubbed": stub,
        "build_s": round(t_build, 1), "simulation_s": round(t_sim, 1),
    }
    if replay: cov["replay"] = replay
    common.write_evidence(prop, tier, seed, cov, assumptions, time.time() - t0, violations)
    if not status:
        print("%s: %d simulated runs, %d distinct histories, %d answers compared, %d faults injected in %.1fs (build %.1fs)" % (prop, runs, len(totals["hashes"]),
            st.get("checks", 0), sum(totals["FAULT"].values()), t_sim, t_build))
    return status

def replay(build, prop, fn):
    sim = build()
    msg, h, out = exec_plan(sim, open(fn).read(), verbose=True)
    sys.stdout.write(out)
    if msg:
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    return 0
