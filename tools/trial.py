#!/usr/bin/env python3
"""Tries small changes against the checks of their property, through an overlay
(nothing in /repo is touched): trial.py FILE [NAME...] (development aid).
FILE defines TRIALS = [(name, property, [(path, old, new), ...]), ...]."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
sys.argv, A = [sys.argv[0], "/dev/null"], sys.argv[1:]
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, "mutate", "run.py")).read().rsplit("main()", 1)[0]
m = {}
exec(compile(src, "run.py", "exec"), m)
H = "/verif/harness"
KNOWN = ",".join(l.split()[2][3:] for l in open("/verif/known-findings.txt") if l.startswith("known:"))
ns = {}
POOL = concurrent.futures.ThreadPoolExecutor(6)
exec(open(A[0]).read(), ns)


def sub(s, a, b):
    if "\r\n" in s:
        a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
    if s.count(a) != 1:
        raise ValueError("%d matches: %s" % (s.count(a), a))
    return s.replace(a, b)


for name, prop, edits in ns["TRIALS"]:
    if A[1:] and name not in A[1:]:
        continue
    d = tempfile.mkdtemp(dir="/tmp")
    try:
        texts = {}
        for f, a, b in edits:
            p = "/repo/" + f
            texts[p] = sub(texts.get(p) or open(p, newline="").read(), a, b)
        ov = {}
        for i, (p, s) in enumerate(texts.items()):
            ov[p] = "%s/%d.go" % (d, i)
            open(ov[p], "w", newline="").write(s)
        json.dump({"Replace": ov}, open(d + "/ov.json", "w"))
        rc, o = m["run"](["go", "test", "-vet=off", "-count=1", "-overlay", d + "/ov.json", "./..."], "/repo", 600)
        if rc:
            print(name, "TESTS FAIL", o[-600:], flush=True)
            continue
        for p in prop.split(","):
            race = ["-race"] if p in ("C30", "C34") else []
            rc, o = m["run"](["go", "test", "-c", "-vet=off", *race, "-overlay", d + "/ov.json", "-o", d + "/t", "./" + m["PKG"][p]], H, 600)
            assert rc == 0, o
            if p == "C35":
                rc, o = m["run"](["go", "build", "-overlay", d + "/ov.json", "-o", d + "/examples/", "github.com/fivebinaries/go-cardano-serialization/examples/..."], H, 600)
                assert rc == 0, o
            def one(seed):
                t = d + "/%s-%d" % (p, seed)
                os.mkdir(t)
                rc, o = m["run"]([d + "/t", "-test.run", "^Test%s$" % p, "-test.timeout", "0", "-rapid.shrinktime", "10ms", "-rapid.nofailfile", "-rapid.seed", str(seed * 7919)], t, 600, dict(m["ENV"], VERIF_SCRATCH=t, VERIF_EXAMPLES=d + "/examples", VERIF_KNOWN=KNOWN, TMPDIR=t, VERIF_OUT=t, VERIF_SHARD=str(seed - 1)))
                return rc
            hits = list(POOL.map(one, range(1, 7)))
            print(name, p, "caught" if any(hits) else "MISSED", hits, flush=True)
    except (ValueError, AssertionError) as e:
        print(name, "ERROR", str(e)[:500], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
