"""Creates a planted bug:  python3 tools/plant.py SPEC.py

SPEC.py defines  ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source).
Writes seeded/<ID>/{patch.diff,demo.sh,demo.py,meta.json}; the demonstration exits 0 when the property holds."""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = os.path.join(ROOT, "seeded", spec["ID"])
tmp = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
try:
    repo = os.path.join(tmp, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    for path, old, new in spec["EDITS"]:
        full = os.path.join(repo, path)
        text = open(full).read()
        assert text.count(old) == 1, (path, text.count(old), old)
        open(full, "w").write(text.replace(old, new))
    diff = subprocess.run(["git", "-C", repo, "diff"], check=True, capture_output=True, text=True).stdout
finally:
    shutil.rmtree(tmp)
os.makedirs(out, exist_ok=True)
open(os.path.join(out, "patch.diff"), "w").write(diff)
open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
open(os.path.join(out, "demo.sh"), "w").write(
    "#!/bin/bash\n# cwd: the repository.  Exit 0 when the property holds on the demonstration's input.\n"
    'export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
    'PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
          open(os.path.join(out, "meta.json"), "w"), indent=1)
print("wrote", out)
