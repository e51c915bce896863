"""Entry point: python -m harness.run <property> [quick|thorough] [--replay FILE] [--sub NAME]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known-findings.txt")


def load_suite(pid):
    mod = importlib.import_module(f"checks.{pid.lower()}")
    return mod.SUITE


def open_findings(pid):
    """Lines 'open: property=<id> sub=<name> case=<json> what=<text>'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith(f"open: property={pid} "):
                rest = line.split(" ", 2)[2]
                sub = rest.split(" ", 1)[0][len("sub="):]
                body = rest.split(" ", 1)[1]
                assert body.startswith("case=")
                case, end = json.JSONDecoder().raw_decode(body[len("case="):])
                what = body[len("case=") + end:].strip()[len("what="):]
                out.append((sub, case, what))
    return out


def worker(suite, name, tier, shard, seed, conn, quiet):
    from harness import core
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    try:
        t = time.monotonic()
        r = core.run_sub(suite, suite.get(name), tier, shard, seed)
        conn.send(("ok", dict(evaluations=r.evaluations, rejected=r.rejected, distinct=r.distinct, labels=r.labels,
                              samples=r.samples, failure=r.failure, exhaustive=r.exhaustive,
                              wall=time.monotonic() - t)))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()
    os._exit(0)


def run_tasks(suite, tasks, tier, seed, quiet=True, jobs=8):
    ctx = mp.get_context("fork")
    pending, running, results = list(tasks), [], {}
    while pending or running:
        while pending and len(running) < jobs:
            name, shard = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(suite, name, tier, shard, seed, b, quiet), daemon=True)
            p.start()
            b.close()
            running.append((p, a, name, shard))
        mp.connection.wait([a for _, a, _, _ in running], timeout=5)
        still = []
        for p, a, name, shard in running:
            if a.poll():
                try:
                    results[(name, shard)] = a.recv()
                except EOFError:
                    results[(name, shard)] = ("error", f"worker of {name}/{shard} died (exit {p.exitcode})")
                p.join(10)
            elif not p.is_alive() and not a.poll():
                results[(name, shard)] = ("error", f"worker of {name}/{shard} died (exit {p.exitcode})")
            else:
                still.append((p, a, name, shard))
        running = still
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--verbose", action="store_true", help="print the distribution of each sub-check")
    ap.add_argument("--noise", action="store_true", help="let the code under test print")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    pid, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    from harness import core
    suite = load_suite(pid)

    if args.replay:
        rec = json.load(open(args.replay))
        try:
            _, err = core.run_case(suite.get(rec["sub"]), rec["case"])
        except core.Reject:
            err = None
        except core.Hang:
            err = "did not finish"
        if err:
            print(err)
            print(f"VIOLATION property={pid} replay={os.path.abspath(args.replay)}")
            return 1
        print("replay: the property holds on this case")
        return 0

    subs = [s for s in suite.subs if not args.sub or s.name in args.sub]
    if args.scale != 1.0:
        for s in subs:
            s.n[tier] = max(1, int(s.n[tier] * args.scale))
    tasks = [(s.name, k) for s in subs for k in range(s.shards[tier])]
    results = run_tasks(suite, tasks, tier, seed, quiet=not args.noise, jobs=args.jobs)

    errors = [(k, v[1]) for k, v in results.items() if v[0] == "error"]
    ok = {k: v[1] for k, v in results.items() if v[0] == "ok"}
    per_sub, samples, labels, failures = {}, [], {}, []
    evaluations = distinct = 0
    for s in subs:
        d, ev, rej, lab, smp, wall = set(), 0, 0, {}, [], 0.0
        exhaustive = s.cases is not None
        for k in range(s.shards[tier]):
            r = ok.get((s.name, k))
            if r is None:
                continue
            d |= r["distinct"]
            ev += r["evaluations"]
            rej += r["rejected"]
            wall += r["wall"]
            for l, c in r["labels"].items():
                lab[l] = lab.get(l, 0) + c
            smp += r["samples"]
            if r["failure"]:
                failures.append((s.name, r["failure"][0], r["failure"][1]))
                exhaustive = False
        per_sub[s.name] = dict(evaluations=ev, distinct_nontrivial=len(d), rejected=rej, labels=lab, cpu_s=round(wall, 2),
                               mode="bounded exhaustive enumeration" if s.cases is not None else "random generation")
        if exhaustive:
            per_sub[s.name]["exhaustive"] = True
        samples += [{"sub": s.name, "case": c} for c in smp[:2]]
        evaluations += ev
        distinct += len(d)

    known = []
    for sub, case, what in open_findings(pid):
        try:
            _, err = core.run_case(suite.get(sub), case)
        except core.Hang:
            err = "did not finish"
        if err:
            known.append((sub, case, what))
            print(f"KNOWN-FINDING: property={pid} {what}")
    failures = [f for f in failures if not any(k[0] == f[0] and k[1] == f[2] for k in known)]

    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    lines = []
    for name, msg, case in sorted(failures, key=lambda f: len(json.dumps(f[2]))):
        rp = os.path.join(evdir, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{pid}-{name}.json")
        json.dump(dict(property=pid, sub=name, message=msg, case=case, seed=seed), open(path, "w"), indent=1)
        lines.append((msg, f"VIOLATION property={pid} replay={path}", name))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=suite.rule,
                            samples=samples[:12], per_sub=per_sub),
              assumptions=suite.assumptions, wall_s=round(time.monotonic() - t0, 2), violations=len(lines))
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{pid} {tier} seed={seed}: {evaluations} cases, {distinct} distinct non-trivial, "
          f"{len(lines)} violations, {ev['wall_s']} s")
    if args.verbose:
        for n, v in per_sub.items():
            print("  ", n, json.dumps(v))
    for msg, line, name in lines:
        print(f"[{name}] {msg}")
        print(line)
    if lines:
        return 1
    if errors:
        for k, e in errors:
            print(f"HARNESS ERROR in {k}:\n{e}", file=sys.stderr)
        return 2
    if evaluations == 0 or (not args.sub and any(v["evaluations"] == 0 for v in per_sub.values())):
        print("HARNESS ERROR: a sub-check generated no case", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
