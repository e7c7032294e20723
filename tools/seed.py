#!/usr/bin/env python3
"""Works on planted bugs.
  seed.py new <id> <prop>          take the diff of /tmp/seedrepo (a copy of /repo) as seeded/<id>/patch.diff, install demo helper
  seed.py confirm <id>...          apply to /repo, build, tests, demo (fails), undo, build, demo (passes)
  seed.py run <id>... [--check P]  run the property's check against a copy of /repo with the patch
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
COPY = "/tmp/seedrepo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def fresh():
    sh("rm -rf /tmp/seedrepo; mkdir /tmp/seedrepo; git -C /repo archive HEAD | tar -x -C /tmp/seedrepo; cd /tmp/seedrepo && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base")


def reset():
    h = sh("git -C /repo rev-parse HEAD").stdout.decode().strip()
    if not os.path.exists(COPY + "/.git") or not os.path.exists(COPY + ".head") or open(COPY + ".head").read() != h:
        fresh()
        open(COPY + ".head", "w").write(h)
    sh("git -C /tmp/seedrepo checkout -q -- . && git -C /tmp/seedrepo clean -fdq")


def confirm(i):
    d = os.path.join(S, i)
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo not clean")
    ok = True
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout.decode())
        return False
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(i, "DOES NOT BUILD", r.stdout.decode()[-2000:])
            return False
        sh("bash /opt/vp/test.sh /tmp/seed-o.json")
        o = json.load(open("/tmp/seed-o.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        st = b.get("passed") or b.get("stable") or b.get("tests")
        miss = set(st) - set(o["passed"]) if st else set(o["failed"])
        if miss:
            print(i, "TESTS FAIL", sorted(miss)[:5])
            ok = False
        r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        print(i, "with patch: demo rc", r.returncode, r.stdout.decode()[-300:].strip())
        if r.returncode == 0:
            ok = False
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    print(i, "clean tree: demo rc", r.returncode, r.stdout.decode()[-300:].strip() if r.returncode else "")
    if r.returncode:
        ok = False
    print(i, "CONFIRMED" if ok else "NOT CONFIRMED")
    return ok


def run(i, chk=None, extra=""):
    d = os.path.join(S, i)
    m = json.load(open(d + "/meta.json"))
    reset()
    r = sh("git -C /tmp/seedrepo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "DOES NOT APPLY")
        return
    p = chk or m["property"]
    e = dict(os.environ, VF_REPO=COPY, VF_BUILD="/tmp/seedbuild", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    r = sh("cd %s && timeout 900 ./run.sh %s quick %s" % (V, p, extra), env=e)
    out = r.stdout.decode("latin-1")
    v = [l for l in out.splitlines() if l.startswith("  ")][:3]
    print(i, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % p in out else "MISSED " + out[-600:], "|", " ".join(v)[:300])
    reset()


a = sys.argv[1:]
if a[0] == "reset":
    reset()
elif a[0] == "new":
    d = os.path.join(S, a[1])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(sh("git -C /tmp/seedrepo diff").stdout)
    shutil.copy(V + "/tools/seedlib/demolib.py", d)
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
    print(sh("cat %s/patch.diff" % d).stdout.decode())
    reset()
elif a[0] == "confirm":
    for i in a[1:] or sorted(os.listdir(S)):
        confirm(i)
elif a[0] == "run":
    c = None
    if "--check" in a:
        c = a[a.index("--check") + 1]
        a = a[:a.index("--check")]
    for i in a[1:] or sorted(os.listdir(S)):
        run(i, c)
