"""Development aid: python3 tools/mkbug.py SPEC.py -> seeded/<id>/ from a spec with ID, PROP, NEEDS, BREAKS,
EDITS=[(file, old, new)], DEMO (python source)."""
import json, pathlib, subprocess, sys, tempfile, runpy, shutil
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = pathlib.Path("/verif/seeded") / s["ID"]
    d.mkdir(parents=True, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, old, new in s["EDITS"]:
            p = pathlib.Path(w, "r", "python/lsst/pipe/base", f)
            t = p.read_text()
            assert t.count(old) == 1, (s["ID"], f, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], check=True, capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
    finally:
        shutil.rmtree(w)
    (d / "meta.json").write_text(json.dumps({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    (d / "demo.py").write_text(s["DEMO"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    print("wrote", d)
