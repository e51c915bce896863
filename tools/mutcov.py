"""Which lines of /repo each sub-check executes: mutcov.py OUT.json [SCALE] [PID...]  (development aid, no check uses it)"""
import importlib, json, multiprocessing as mp, os, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, ".deps"), ROOT, "/repo"]


def one(args):
    pid, name, scale = args
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "cov")

    def line(code, ln):
        f = code.co_filename
        if f.startswith("/repo/cdmir"):
            hit.add((f[6:], ln, ))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    from harness import core
    core.SHRINK_SECONDS = 5
    suite = importlib.import_module("checks." + pid.lower()).SUITE
    mon.set_events(3, mon.events.LINE)
    s = suite.get(name)
    s.n["quick"] = max(min(30, s.n["quick"]), int(s.n["quick"] * scale))
    s.shards["quick"] = 1
    if s.cases is not None:
        f = s.cases
        import itertools
        s.cases = lambda tier: itertools.islice(f(tier), 0, None, 7) if scale < 1 else f(tier)
    t = time.time()
    err = None
    try:
        core.run_sub(suite, s, "quick", 0, 5)
    except BaseException as e:
        err = repr(e)
    return pid, name, sorted(hit), round(time.time() - t, 1), err


if __name__ == "__main__":
    out, scale = sys.argv[1], float(sys.argv[2])
    pids = sys.argv[3:] or [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
    jobs = []
    for p in pids:
        for s in importlib.import_module("checks." + p.lower()).SUITE.subs:
            jobs.append((p, s.name, scale))
    res = json.load(open(out)) if os.path.exists(out) else {}
    with mp.get_context("spawn").Pool(int(os.environ.get("J", "4")), maxtasksperchild=1) as pool:
        for pid, name, hit, t, err in pool.imap_unordered(one, jobs, chunksize=1):
            res[pid + "/" + name] = {"lines": hit, "t": t}
            print(pid, name, len(hit), t, err or "", flush=True)
            json.dump(res, open(out, "w"))
