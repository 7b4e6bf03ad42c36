"""Helper to plant a bug: seed(name, prop, needs, breaks, edits, demo).

edits: (file, old, new) on /repo's tree.  demo: C++ source, exit 0 = holds.
Confirms that it compiles, passes the stable tests, touches original lines only,
and that the demonstration tells it from the unchanged tree; leaves /repo clean.
"""
import glob, json, os, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
R = "/repo"
DEMO = r'''#!/bin/bash
# run with cwd = the repository, after its build; exit 0: the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++ -std=c++17 -w -I"$d" -Iinclude -isystem /usr/include/gdal -isystem /usr/include/eigen3 \
  "$d/demo.cpp" @SRCS@ -o "$t/demo" _build/libFields2Cover.a -lgdal -lgeos_c -ltbb -ltinyxml2 -lpthread || exit 2
cd "$t" && timeout 120 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C /repo checkout -- .")


def seed(name, prop, needs, breaks, edits, demo, srcs="", files=()):
    only = sys.argv[1:]
    if only and name not in only:
        return
    d = os.path.join(V, "seeded", name)
    if os.path.exists(os.path.join(d, "meta.json")) and not only:
        return
    assert sh("git -C /repo status --porcelain -uno").stdout == ""
    root = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
    mine = set(l.split()[0] for l in sh("git -C /repo log --format='%H %s'").stdout.splitlines() if " fix:" in l)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    for f in files:
        dst = os.path.join(d, os.path.basename(f))
        if os.path.isdir(f):
            shutil.copytree(f, dst, dirs_exist_ok=True)
        else:
            shutil.copy(f, dst)
    ds = os.path.join(d, "demo.sh")
    open(ds, "w").write(DEMO.replace("@SRCS@", srcs))
    os.chmod(ds, 0o755)
    ok = False
    try:
        for f, a, b in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(name, "edit matches", s.count(a), "times:", a); return
            line0 = s[:s.index(a)].count("\n") + 1
            bl = sh("git -C /repo blame -s -l -L %d,%d %s" % (line0, line0 + a.count("\n"), f)).stdout
            if any(l.split()[0].lstrip("^") in mine for l in bl.splitlines()):
                print(name, "NOTE touches fix lines:\n" + bl)
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        t = sh("bash /verif/tools/t.sh").stdout
        if "stable failing: []" not in t:
            print(name, "TESTS", t[-600:]); return
        x = sh("bash " + ds, cwd=R)
        if x.returncode in (0, 2):
            print(name, "demo with the patch:", x.returncode, x.stdout[-2000:]); return
        print(name, "with the patch:", x.stdout[-200:].strip())
        clean()
        sh("bash /opt/vp/build.sh")
        x = sh("bash " + ds, cwd=R)
        if x.returncode != 0:
            print(name, "demo without the patch:", x.returncode, x.stdout[-2000:]); return
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = True
        print(name, "OK")
    finally:
        clean()
        sh("bash /opt/vp/build.sh")
        if not ok:
            shutil.rmtree(os.path.join(V, "seeded", name))
