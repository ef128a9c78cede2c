# sim.py run PROP BASE FROM COUNT STEP TIER LIMIT | gen PROP SEED TIER | seed PROP BASE INDEX | exec FILE [-v]
import atexit, gc, hashlib, os, shutil, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import world as W

def module(prop):
    if prop in ("C12", "C13", "C14", "C15"):
        import update as m
        return m, m.Update
    if prop in ("C20", "C21"):
        import importer as m
        return m, m.Imp
    if prop == "C22":
        import bind as m
        return m, m.Bind
    import cli as m
    return m, m.Cli

def run_seed(prop, base, idx):
    return int.from_bytes(hashlib.sha256(("%s %d %d" % (prop, base, idx)).encode()).digest()[:8], "big") >> 1

class Result: pass

def run_plan(text, verbose=False):
    lines = [l for l in text.split("\n") if l.strip() and not l.startswith("#")]
    prop = W.parse_opts([l for l in lines if l.startswith("run ")][0].split()[1:])["prop"]
    w = W.World(prop, verbose)
    a = module(prop)[1](w)
    res = Result()
    res.msg = None
    try:
        for l in lines:
            body, _, f = l.partition(" ! ")
            if verbose: print("> " + l)
            a.line(body.split(), f.split())
        if hasattr(a, "finish"): a.finish()
    except W.Violation as e:
        if e.prop == prop: res.msg = str(e)
        else: w.shape("ended by a violation of %s" % e.prop)
    finally:
        if hasattr(a, "readers_gone"): a.readers_gone()
    res.w = w
    res.hash = w.h.hexdigest()
    res.sim = w.simtime
    return res

def cleanup(pid, base):
    if os.getpid() == pid: shutil.rmtree(base, ignore_errors=True)

def main():
    cmd = sys.argv[1]
    if cmd == "seed":
        print(run_seed(sys.argv[2], int(sys.argv[3]), int(sys.argv[4])))
        return 0
    base = os.path.join("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp", "locsim-%d" % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    pid = os.getpid()
    try:
        W.setup(base)
        if cmd == "gen":
            sys.stdout.write(module(sys.argv[2])[0].generate(sys.argv[2], int(sys.argv[3]), len(sys.argv) > 4 and sys.argv[4] == "thorough"))
            return 0
        if cmd == "exec":
            parts = open(sys.argv[2]).read().split("===\n")
            for t in parts:
                r = run_plan(t, len(sys.argv) > 3)
                if r.msg: break
            print("%s %s%s" % ("VIOL" if r.msg else "OK", r.hash, " " + r.msg if r.msg else ""))
            return 1 if r.msg else 0
        prop, seed, frm, count, step, tier, limit = sys.argv[2], *map(int, sys.argv[3:7]), sys.argv[7], float(sys.argv[8])
        m = module(prop)[0]
        t0 = time.monotonic()
        T = {"runs": 0, "ops": 0, "checks": 0, "errors": 0, "faulted": 0, "steps": 0, "sim_ns": 0, "seam": 0}
        faults, shapes = {}, {}
        rc = 0
        for n in range(count):
            if time.monotonic() - t0 > limit: break
            idx = frm + n * step
            s = run_seed(prop, seed, idx)
            print("R %d %d" % (idx, s), flush=True)
            r = run_plan(m.generate(prop, s, tier == "thorough"))
            T["runs"] += 1; T["ops"] += r.w.ops; T["checks"] += r.w.checks; T["errors"] += r.w.errors
            T["faulted"] += bool(r.w.faults); T["steps"] += r.w.S.steps; T["sim_ns"] += r.sim; T["seam"] += r.w.S.steps
            for k, v in r.w.faults.items(): faults[k] = faults.get(k, 0) + v
            for k, v in r.w.shapes.items(): shapes[k] = shapes.get(k, 0) + v
            print("H " + r.hash)
            if r.msg:
                print("VIOL %d %s" % (s, r.msg))
                rc = 1
                break
        for k, v in T.items(): print("STAT %s %d" % (k, v))
        for k, v in faults.items(): print("FAULT %s %d" % (k, v))
        for k, v in shapes.items(): print("SHAPE %s %d" % (k, v))
        print("DONE", flush=True)
        return rc
    finally:
        cleanup(pid, base)

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
