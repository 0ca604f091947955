#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions below (development aid).

  mkseeded.py [ID...]

Each bug is made in a scratch copy of /repo, built, run through the stable
tests and its demonstration, and kept only if all of that comes out right.
"""
import json, os, re, shutil, subprocess, sys, tempfile

OUT = "/verif/seeded"
BUGS = {}


def bug(id, prop, needs, breaks, edits, pkg, demo):
    assert id not in BUGS, id
    BUGS[id] = (prop, needs, breaks, edits, pkg, demo)


DEMO_SH = """#!/bin/bash
# exit 0: the code behaves; otherwise it does not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local TMPDIR="$work"
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$here/demo_test.go" > "$work/overlay.json"
go test -vet=off -count=1 %s-overlay "$work/overlay.json" -run '^TestDemo$' ./%s
"""

from seeded_defs import *  # noqa


def sub(path, a, b):
    s = open(path, newline="").read()
    if "\r\n" in s:
        a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
    assert s.count(a) == 1, (path, s.count(a), a)
    open(path, "w", newline="").write(s.replace(a, b))


ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")


def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def make(id):
    prop, needs, breaks, edits, pkg, demo = BUGS[id]
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        r = os.path.join(work, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        d = os.path.join(work, "out")
        os.mkdir(d)
        race = "-race " if demo.startswith("//race\n") else ""
        open(os.path.join(d, "demo_test.go"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % (pkg, race, pkg))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc, o = sh(["bash", d + "/demo.sh"], r)
        if rc:
            return "demo fails on the unchanged tree:\n" + o[-1500:]
        for f, a, b in edits:
            sub(os.path.join(r, f), a, b)
        rc, o = sh(["go", "build", "./..."], r)
        if rc:
            return "does not build:\n" + o[-1500:]
        rc, o = sh(["go", "test", "-vet=off", "-count=1", "./..."], r)
        if rc:
            return "the tests notice:\n" + o[-1500:]
        rc, o = sh(["bash", d + "/demo.sh"], r)
        if rc == 0:
            return "the demo does not notice"
        if "FAIL" not in o or "[build failed]" in o or "[setup failed]" in o:
            return "the demo is broken:\n" + o[-1500:]
        diff = subprocess.check_output(["git", "diff"], cwd=r)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        # some removed line must be the original repository's
        own = orig = 0
        for f, _, _ in edits:
            base = subprocess.run(["git", "show", "67fff05:" + f], cwd=r, stdout=subprocess.PIPE).stdout.decode(errors="replace").replace("\r", "").split("\n")
            for l in subprocess.check_output(["git", "diff", f], cwd=r).decode(errors="replace").replace("\r", "").split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                    if l[1:] in base: orig += 1
                    else: own += 1
        if not orig:
            return "changes no line of the original repository"
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        t = os.path.join(OUT, id)
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        return None if not own else "ok, but %d changed lines are ours" % own
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    DEFS(bug)
    for id in sys.argv[1:] or sorted(BUGS):
        print(id, BUGS[id][0], make(id) or "ok", flush=True)
