#!/usr/bin/env python3
"""Runs the check of each planted bug's property against it, through an
overlay (nothing in /repo is touched): seedrun.py [-a] [ID...]; -a: all checks of
the package's properties, not only the named one. Development aid."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
sys.argv, A = [sys.argv[0], "/dev/null"], sys.argv[1:]
import importlib.util
spec = importlib.util.spec_from_file_location("mrun", os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate", "run.py"))
src = open(spec.origin).read().rsplit("main()", 1)[0]
m = {}
exec(compile(src, "run.py", "exec"), m)
POOL = concurrent.futures.ThreadPoolExecutor(6)
H = "/verif/harness"
KNOWN = ",".join(l.split()[2][3:] for l in open("/verif/known-findings.txt") if l.startswith("known:"))
for id in A or sorted(os.listdir("/verif/seeded")):
    meta = json.load(open("/verif/seeded/%s/meta.json" % id))
    d = tempfile.mkdtemp(dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        subprocess.check_call(["git", "apply", "/verif/seeded/%s/patch.diff" % id], cwd=r)
        files = subprocess.check_output(["git", "diff", "--name-only"], cwd=r, text=True).split()
        json.dump({"Replace": {"/repo/" + f: r + "/" + f for f in files}}, open(d + "/ov.json", "w"))
        p = meta["property"]
        race = ["-race"] if p in ("C30", "C34") else []
        rc, o = m["run"](["go", "test", "-c", "-vet=off", *race, "-overlay", d + "/ov.json", "-o", d + "/t", "./" + m["PKG"][p]], H, 600)
        assert rc == 0, o
        if p == "C35":
            rc, o = m["run"](["go", "build", "-overlay", d + "/ov.json", "-o", d + "/examples/", "github.com/fivebinaries/go-cardano-serialization/examples/..."], H, 600)
            assert rc == 0, o
        def one(seed):
            t = d + "/%d" % seed
            os.mkdir(t)
            rc, o = m["run"]([d + "/t", "-test.run", "^Test%s$" % p, "-test.timeout", "0", "-rapid.shrinktime", "1s", "-rapid.nofailfile", "-rapid.seed", str(seed * 7919)], t, 600, dict(m["ENV"], VERIF_SCRATCH=t, VERIF_EXAMPLES=d + "/examples", VERIF_KNOWN=KNOWN, TMPDIR=t, VERIF_OUT=t, VERIF_SHARD=str(seed - 1)))
            return rc
        hits = list(POOL.map(one, range(1, 7)))
        print(id, p, "caught" if any(hits) else "MISSED", hits, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
