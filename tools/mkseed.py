#!/usr/bin/env python3
"""Makes a planted bug: mkseed.py SPEC.py   where SPEC defines ID, PROPERTY, EDITS=[(file, old, new)...], NEEDS, BREAKS,
DEMO (text of demo.py or demo.sh) and optionally FILES. The change is made in a scratch copy under /tmp, the demonstration
run with and without it."""
import json, os, shutil, subprocess, sys, tempfile
def main(spec, quick=False):
    g = {}
    exec(compile(open(spec).read(), spec, "exec"), g)
    out = "/verif/seeded/" + g["ID"]
    os.makedirs(out, exist_ok=True)
    repo = tempfile.mkdtemp(prefix="seed_", dir="/tmp") + "/repo"
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], check=True, stdout=subprocess.DEVNULL)
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for f, old, new in g["EDITS"]:
            p = repo + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", repo, "diff"], check=True, capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(d)
    finally:
        shutil.rmtree(os.path.dirname(repo))
    if g["DEMO"].lstrip().startswith("#!/bin/bash"):
        open(out + "/demo.sh", "w").write(g["DEMO"].lstrip())
    else:
        open(out + "/demo.py", "w").write(g["DEMO"].lstrip())
        open(out + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo after the build
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD/compiler/extensions/python/runtime/src"
exec python3 "$(dirname "$0")/demo.py"
''')
    os.chmod(out + "/demo.sh", 0o755)
    for n, t in g.get("FILES", {}).items():
        open(out + "/" + n, "w").write(t)
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    verify(g["ID"])


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def verify(sid):
    """As vcheck does: build, stable tests, demonstration with and without the change, and the property's check."""
    out = "/verif/seeded/" + sid
    prop = json.load(open(out + "/meta.json"))["property"]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    assert sh("bash /opt/vp/build.sh").returncode == 0
    a = sh(out + "/demo.sh", cwd="/repo")
    subprocess.run(["git", "-C", "/repo", "apply", out + "/patch.diff"], check=True)
    try:
        bld = sh("bash /opt/vp/build.sh")
        b = sh(out + "/demo.sh", cwd="/repo")
        res = "/tmp/seed_res.json"
        sh("bash /opt/vp/test.sh " + res)
        r = json.load(open(res))
        os.remove(res)
        ok = set(r.get("passed", []))
        lost = [t for t in stable if t not in ok]
        c = sh("/verif/check.py " + prop, cwd="/verif") if os.path.exists("/verif/checks/%s.py" % prop.lower()) else None
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
        sh("bash /opt/vp/build.sh")
    good = a.returncode == 0 and b.returncode != 0 and bld.returncode == 0 and not lost
    print(sid, prop, "COUNTS" if good else "DOES NOT COUNT", "| clean", a.returncode, "patched", b.returncode, "build", bld.returncode, "tests lost", len(lost), lost[:3],
          "| check", None if c is None else c.returncode, None if c is None else c.stdout.strip().splitlines()[-2:], flush=True)
    if not good:
        print(a.stdout[-800:], a.stderr[-800:], b.stdout[-500:])


for s in sys.argv[1:]:
    if s.endswith(".py"):
        main(s)
    else:
        verify(s)
