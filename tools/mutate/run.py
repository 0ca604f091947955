#!/usr/bin/env python3
"""Mutation survey (development aid, not a check).

  run.py OUT.jsonl [--sample N] [--stop] FILE...     files relative to /repo

Applies each mutant through a Go overlay (nothing in /repo is touched), drops
the ones that do not compile or that the repository's own tests notice, runs
the checks of the properties the file carries and records which fail.
Works on a copy of the harness, so that it can be edited meanwhile.
"""
import json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

W = "/tmp/mut"
H = W + "/harness"
R = "/repo"
PROPS = {
    "address/": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C16", "C32"],
    "network/": ["C01", "C03", "C05", "C08", "C25", "C28", "C32"],
    "bip32/": ["C08", "C10", "C11", "C12", "C13", "C19", "C32"],
    "internal/bech32/": ["C03", "C04", "C09", "C32"],
    "crypto/crypto.go": ["C08", "C12", "C15", "C32"],
    "crypto/edwards25519/": ["C14", "C12", "C13", "C11"],
    "tx/": ["C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C31", "C32", "C27", "C29"],
    "node/": ["C25", "C26", "C27", "C28", "C29"],
    "protocol/": ["C24", "C26"],
    "fees/": ["C21", "C23"],
}
PKG = {}
for i in range(1, 9): PKG["C%02d" % i] = "addr"
PKG["C09"] = "bech"
for i in range(10, 14): PKG["C%02d" % i] = "keys"
PKG.update(C14="curve", C15="hash", C24="proto", C30="conc", C31="txp", C32="e2e", C33="nodep", C34="nodep", C35="nodep")
for i in range(16, 24): PKG["C%02d" % i] = "txp"
for i in range(25, 30): PKG["C%02d" % i] = "nodep"

ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off")


def run(cmd, cwd, timeout, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def one(m, stop):
    d = tempfile.mkdtemp(dir=W)
    try:
        path = os.path.join(R, m["file"])
        src = open(path, "rb").read()
        mut = os.path.join(d, "m.go")
        open(mut, "wb").write(src[:m["From"]] + m["New"].encode() + src[m["To"]:])
        ov = os.path.join(d, "ov.json")
        json.dump({"Replace": {path: mut}}, open(ov, "w"))
        pk = "./" + os.path.dirname(m["file"])
        rc, o = run(["go", "build", "-overlay", ov, pk], R, 300)
        if rc:
            return dict(m, status="nobuild")
        rc, o = run(["go", "test", "-vet=off", "-count=1", "-overlay", ov, "./address", "./tx"], R, 300)
        if rc:
            return dict(m, status="tests")
        props = next(v for k, v in PROPS.items() if m["file"].startswith(k))
        bins, res = {}, {}
        for p in props:
            pkg = PKG[p]
            if pkg not in bins:
                bins[pkg] = os.path.join(d, pkg + ".test")
                rc, o = run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bins[pkg], "./" + pkg], H, 600)
                if rc:
                    return dict(m, status="nobuild-harness", out=o[-500:])
            t = os.path.join(d, "t" + p)
            os.mkdir(t)
            rc, o = run([bins[pkg], "-test.run", "^Test%s$" % p, "-test.timeout", "0", "-rapid.shrinktime", "0s", "-rapid.nofailfile", "-rapid.seed", str(random.getrandbits(60) + 1)], t, 400, dict(ENV, VERIF_SCRATCH=t, TMPDIR=t, VERIF_OUT=t))
            res[p] = rc
            if rc and stop:
                break
        return dict(m, status="killed" if any(res.values()) else "SURVIVED", res=res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    sample, stop = None, False
    if "--sample" in a:
        i = a.index("--sample"); sample = int(a[i + 1]); del a[i:i + 2]
    if "--stop" in a:
        a.remove("--stop"); stop = True
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(H):
        shutil.copytree("/verif/harness", H)
    subprocess.check_call(["go", "build", "-o", W + "/mutants", "mutants.go"], cwd=os.path.dirname(os.path.abspath(__file__)), env=ENV)
    ms = []
    for f in a:
        l = [json.loads(x) for x in subprocess.check_output([W + "/mutants", f], cwd=R, text=True).splitlines()]
        if sample and len(l) > sample:
            random.seed(f); l = random.sample(l, sample)
        ms += l
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["From"], r["To"], r["New"]) for r in map(json.loads, open(out))}
    ms = [m for m in ms if (m["file"], m["From"], m["To"], m["New"]) not in done]
    print(len(ms), "mutants", flush=True)
    with open(out, "a") as fh, ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for r in ex.map(lambda m: one(m, stop), ms):
            fh.write(json.dumps(r) + "\n"); fh.flush()
            if r["status"] == "SURVIVED":
                print(r["file"], r["Line"], r["What"], flush=True)


main()
