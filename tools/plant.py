"""Confirm a planted change in a scratch copy of /repo and keep it under seeded/.

plant(id, property, [(file, old, new)], needs, breaks, demo) - demo is C++ with int main() returning 0 when the property holds."""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
WT = "/tmp/plant.wt"
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour is right. Run with the repository as current directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
%s g++ -std=c++17 -w %s -ICode -ICode/Json4C4 -ICode/Terathon "$d/demo.cpp" Code/Json4C4/*.cpp Code/Terathon/*.cpp -o "$t/demo" -lpthread || exit 4
cd "$t" && timeout 120 ./demo
'''


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    sh("git -C /repo worktree prune; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (WT, WT))


def plant(id, prop, edits, needs, breaks, demo, flags="-O1", env=""):
    d = os.path.join(V, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % (env, flags))
    fresh()
    sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", WT)
    rc0, out0 = sh("bash %s/demo.sh" % d, WT)
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p, newline="").read()
        if "\r\n" in s and "\r" not in old:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print(id, "EDIT MATCHES", s.count(old), "TIMES", f, old)
            return False
        open(p, "w", newline="").write(s.replace(old, new))
    _, diff = sh("git diff", WT)
    open(d + "/patch.diff", "w", newline="").write(subprocess.run("git diff", shell=True, cwd=WT, stdout=subprocess.PIPE).stdout.decode())
    rc1, out1 = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON && cmake --build _b -j8 && "
                   "rm -rf _b/bin/Data && cmake -E copy_directory Data _b/bin/Data && ctest --test-dir _b -j8 --timeout 60", WT)
    rc2, out2 = sh("bash %s/demo.sh" % d, WT)
    theirs = 0
    for f, old, new in edits:
        _, b = sh("git -C /repo blame -s HEAD -- %s" % f)
        rows = b.splitlines()
        import re
        for h in re.finditer(r"^@@ -(\d+)", sh("git diff -U0 -- %s" % f, WT)[1], re.M):
            theirs += rows[int(h.group(1)) - 1].startswith("^042f36a")
    if not theirs:
        print(id, "TOUCHES ONLY LINES OF FIX COMMITS")
    ok = rc0 == 0 and rc1 == 0 and rc2 not in (0, 3, 4)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id, "OK" if ok else "NOT VALID", "demo before", rc0, "tests", rc1, "demo after", rc2)
    if not ok:
        print(out0[-500:], out1[-1500:] if rc1 else "", out2[-500:])
    return ok


def tryall(id, checks):
    """Run checks on the copy with the change."""
    fresh()
    rc, out = sh("patch -p1 --binary < %s/%s/patch.diff" % (V, id), WT)
    assert rc == 0, out
    for c in checks:
        rc, out = sh("VERIF_REPO=%s /verif/check %s" % (WT, c), "/verif")
        line = [l for l in out.splitlines() if l.startswith("violated by")]
        print(id, c, {0: "missed", 1: "CAUGHT"}.get(rc, "rc %d" % rc), (line or [out[-300:]])[0][:260] if rc else "", flush=True)


if __name__ == "__main__":
    for i in sys.argv[1:]:
        m = json.load(open(os.path.join(V, i, "meta.json")))
        tryall(i, [m["property"]])
