#!/usr/bin/env python3
"""seed.py SPEC.py ...: turns a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) into seeded/<ID>/ and
tries it in a scratch copy of /repo: demo without and with the change, stable tests, then the property's check on /repo."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import sys, types, os, tempfile, shutil, logging
sys.modules.setdefault("quadpy", types.ModuleType("quadpy"))
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
import numpy as np
WORK = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, WORK, True)
def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    s = max(np.max(np.abs(b)), 1e-30)
    if a.shape != b.shape or not np.max(np.abs(a - b)) <= tol * s:
        print("expected", b, "got", a)
        sys.exit(1)
'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    nocheck = "--nocheck" in sys.argv
    for spec in [a for a in sys.argv[1:] if not a.startswith("-")]:
        s = {}
        exec(open(spec).read(), s)
        d = os.path.join(HERE, "seeded", s["ID"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(HEAD + s["DEMO"].strip("\n") + "\n")
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        w = tempfile.mkdtemp(prefix="seed")
        r = w + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        try:
            a = run(["bash", d + "/demo.sh"], r)
            for f, old, new in s["EDITS"]:
                t = open(os.path.join(r, f), newline="").read()
                if "\r\n" in t:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert t.count(old) >= 1, ("not found", f, old)
                k = s.get("WHICH", 0)
                parts = t.split(old)
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                open(os.path.join(r, f), "w", newline="").write(t)
            diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE).stdout
            open(d + "/patch.diff", "wb").write(diff)
            b = run(["bash", d + "/demo.sh"], r)
        finally:
            shutil.rmtree(w)
        ok = a.returncode == 0 and b.returncode != 0
        print(s["ID"], s["PROPERTY"], "demo", a.returncode, b.returncode, "" if ok else a.stdout[-1500:] + b.stdout[-1500:])
        if ok and not nocheck:
            g = run(["git", "-C", "/repo", "apply", d + "/patch.diff"], "/")
            assert g.returncode == 0, g.stdout
            try:
                run(["bash", "/opt/vp/test.sh", "/tmp/seed_t.json"], "/repo")
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                got = json.load(open("/tmp/seed_t.json"))["passed"]
                miss = [t for t in base if t not in got]
                print("   stable tests", "all pass" if not miss else "FAIL %s" % miss)
                c = run(["python3", "check.py", s["PROPERTY"]], HERE)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                print("   check", c.returncode, v[:1] if c.returncode == 1 else c.stdout[-600:])
            finally:
                run(["git", "-C", "/repo", "checkout", "--", "."], "/")


main()
