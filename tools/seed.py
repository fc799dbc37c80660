#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: writes seeded/<id>/ from a specification and confirms it in scratch copies.
SPEC defines S, a list of dicts: id, property, file, edits [(old, new)...], demo (python source), needs, breaks."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "dbb61bb"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1"}


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def one(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        sh("git", "clone", "-q", "/repo", w + "/repo")
        r = w + "/repo"
        with open(d + "/demo.py", "w") as f:
            f.write(s["demo"])
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                    'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        a = sh("bash", d + "/demo.sh", cwd=r, env=ENV)
        files = s["file"] if isinstance(s["file"], list) else [s["file"]]
        eds = s["edits"] if isinstance(s["file"], list) else [s["edits"]]
        for fn, es in zip(files, eds):
            p = r + "/robuststats/" + fn
            t = open(p).read()
            for o, n in es:
                if t.count(o) < 1:
                    return "%s: text not found: %r" % (s["id"], o[:60])
                t = t.replace(o, n, 1)
            open(p, "w").write(t)
        diff = sh("git", "diff", cwd=r).stdout
        with open(d + "/patch.diff", "w") as f:
            f.write(diff)
        # originality of the changed lines
        mine = 0
        base = {fn: set(sh("git", "show", BASE + ":robuststats/" + fn, cwd=r).stdout.splitlines()) for fn in files}
        minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        allb = set().union(*base.values())
        mine = sum(1 for l in minus if l not in allb)
        b = sh("bash", d + "/demo.sh", cwd=r, env=ENV)
        t = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2",
               "--junitxml=" + w + "/t.xml", "tests", cwd=r, env={**ENV, "PYTHONPATH": r})
        import xml.etree.ElementTree as ET
        ok = set()
        for c in ET.parse(w + "/t.xml").getroot().iter("testcase"):
            if not any(x.tag in ("failure", "error", "skipped") for x in c):
                ok.add(c.get("classname") + "." + c.get("name"))
        base_ids = json.load(open("/opt/vp/BASELINE.json"))
        want = base_ids["stable"]
        norm = lambda x: x.replace("::", ".").replace("/", ".").replace(".py", "")
        missing = [x for x in want if norm(x) not in ok]
        env = {**os.environ, "SA_REPO": r, "SA_EVIDENCE": w + "/ev"}
        caught = []
        for q in [s["property"]] + s.get("also", []):
            c = sh("python3-vt", "sa/run.py", q, cwd=V, env=env)
            line = (c.stdout.splitlines() or [""])[0][:170]
            caught.append("%s rc=%d %s" % (q, c.returncode, line))
        return "%s: demo %d/%d minus=%d notoriginal=%d missing=%d%s | %s%s" % (
            s["id"], a.returncode, b.returncode, len(minus), mine, len(missing), " " + str(missing[:2]) if missing else "",
            " | ".join(caught), "" if a.returncode == 0 else "\n" + (a.stdout + a.stderr)[-400:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, [s for s in ns["S"] if not only or s["id"] in only]):
            print(r, flush=True)
