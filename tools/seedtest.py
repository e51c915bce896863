"""Tries planted bugs in scratch copies:  python3 tools/seedtest.py [-j N] [--no-tests] [--no-demo] ID ...

For each: the patch applies, changes lines of the original repository, the demonstration passes without and fails with
it, the stable tests still pass, and whether the property's quick check reports it."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "ebdd151"
TABLE = os.path.join(ROOT, "tools", "caught.json")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def original_lines(repo, diff):
    """(changed original lines, changed lines added by later commits)"""
    own = other = 0
    path = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            path = line[6:]
            blame = subprocess.run(["git", "-C", repo, "blame", "-s", "-l", path], capture_output=True, text=True).stdout.splitlines()
            later = set(subprocess.run(["git", "-C", repo, "rev-list", BASE + "..HEAD"], capture_output=True, text=True).stdout.split())
        elif m := re.match(r"@@ -(\d+)", line):
            at = int(m.group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if blame[at - 1].split()[0].lstrip("^")[:39] in {x[:39] for x in later}:
                other += 1
            else:
                own += 1
            at += 1
        elif line.startswith(" "):
            at += 1
    return own, other


def tests(repo, tmp):
    xml = os.path.join(tmp, "junit.xml")
    env = dict(ENV, PYTHONPATH=repo, MPLCONFIGDIR=os.path.join(tmp, "mpl"))
    shutil.copytree("/opt/vp/mplconfig", env["MPLCONFIGDIR"])
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "3", "--timeout=300", "--randomly-seed=0",
        "--randomly-dont-reorganize", "--continue-on-collection-errors", "--ignore=cdmir/tests/test_anm.py",
        "-o", "junit_family=xunit2", "--junitxml=" + xml], repo, env)
    good = set()
    for case in ET.parse(xml).getroot().iter("testcase"):
        name = "::".join(x for x in (case.get("classname"), case.get("name")) if x)
        if case.find("failure") is None and case.find("error") is None and case.find("skipped") is None:
            good.add(name)
    return sorted(STABLE - good)


def one(bug, opts):
    d = os.path.join(ROOT, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    res = [bug, prop]
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        sh(["git", "checkout", "-q", "--", "."], repo)
        if "--no-demo" not in opts:
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
            res.append("clean-demo " + ("ok" if rc == 0 else f"BAD rc={rc} {out[-600:]}"))
        diff = open(os.path.join(d, "patch.diff")).read()
        own, other = original_lines(repo, diff)
        res.append(f"orig-lines={own}" + (f" LATER-LINES={other}" if other else "") + ("" if own or other else " ADD-ONLY"))
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            return res + ["PATCH FAILS " + out]
        if "--no-demo" not in opts:
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
            res.append("bug-demo " + ("ok" if rc not in (0, 124, 127) else f"BAD rc={rc}") + " :: " + (out.strip().splitlines() or [""])[-1][:150])
        if "--no-tests" not in opts:
            bad = tests(repo, tmp)
            res.append("tests ok" if not bad else f"TESTS FAIL {bad[:4]}")
        if "--no-check" not in opts:
            v = os.path.join(tmp, "v")
            shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
            os.makedirs(os.path.join(v, "evidence"))
            env = dict(ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            rc, out = sh(["bash", "check.sh", prop, "quick", "--jobs", os.environ.get("JOBS", "4")], v, env)
            hit = [x for x in out.splitlines() if x.startswith("VIOLATION")]
            res.append(f"CAUGHT {hit[0].split('/')[-1]}" if rc == 1 and hit else f"MISSED rc={rc} {out[-300:]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


if __name__ == "__main__":
    args = sys.argv[1:]
    n = 1
    if "-j" in args:
        i = args.index("-j"); n = int(args[i + 1]); del args[i:i + 2]
    opts = [a for a in args if a.startswith("--")]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(n) as pool:
        for r in pool.map(lambda b: one(b, opts), ids):
            print(" | ".join(r), flush=True)
            if r[-1].startswith(("CAUGHT", "MISSED")):  # for the table in DESIGN.md
                t = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
                t[r[0]] = re.sub(r"^CAUGHT \w+-(.*)\.json", r"\1", r[-1]) if r[-1].startswith("CAUGHT") else "missed"
                json.dump(dict(sorted(t.items())), open(TABLE, "w"), indent=0)
