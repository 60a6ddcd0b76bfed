#!/usr/bin/env python3
"""plant.py ID: (re)confirm a planted change under /verif/seeded/ID in a scratch
copy: it applies, builds, passes the stable tests, its demo passes without it
and fails with it; then print which checks report it. Development tool only."""

import json, os, subprocess, sys, shutil, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, **kw)


def main():
    bug = sys.argv[1]
    checks = None
    args = sys.argv[2:]
    if args and args[0] == "--checks":
        checks = args[1].split(",")
    d = os.path.join(ROOT, "seeded", bug)
    work = tempfile.mkdtemp(prefix="plant.")
    repo = work + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        sh("git checkout -q -- .", repo)
        demo = sh("bash %s/demo.sh" % d, repo)
        print("demo on unchanged tree:", demo.returncode, "" if demo.returncode == 0 else demo.stdout[-800:] + demo.stderr[-800:])
        p = sh("git apply %s/patch.diff" % d, repo)
        if p.returncode:
            print("apply:", p.stderr)
            return
        # lines touched must be original ones
        b = sh("go build ./... && go vet .", repo)
        print("build:", b.returncode, b.stderr[-500:] if b.returncode else "")
        t = sh("go test -count=1 .", repo)
        print("tests:", t.stdout[-600:] if t.returncode else "pass")
        demo = sh("bash %s/demo.sh" % d, repo)
        print("demo with the change:", demo.returncode, demo.stdout[-300:])
        os.makedirs(work + "/v/evidence", exist_ok=True)
        shutil.copytree(ROOT + "/mc", work + "/v/mc")
        gm = open(work + "/v/mc/go.mod").read().replace("=> /repo", "=> " + repo)
        open(work + "/v/mc/go.mod", "w").write(gm)
        x = sh("go build -o ../../mcbin .", work + "/v/mc")
        if x.returncode:
            print(x.stderr)
            return
        os.makedirs(work + "/v/evidence", exist_ok=True)
        shutil.copy(ROOT + "/known_findings.json", work + "/v")
        ids = checks or [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
        caught = []
        for i in ids:
            if i == "C08" and checks is None and "--c08" not in args:
                continue
            e = dict(ENV, VERIF_WORK=work)
            r = subprocess.run([work + "/mcbin", "-prop", i, "-tier", "quick", "-verif", work + "/v", "-max", "3"], cwd=work + "/v/mc", env=e, capture_output=True, text=True)
            if r.returncode == 1:
                caught.append(i)
            elif r.returncode != 0:
                caught.append(i + "?" + str(r.returncode))
        meta = json.load(open(d + "/meta.json"))
        meta["caught_by"] = ", ".join(caught) or "none"
        json.dump(meta, open(d + "/meta.json", "w"), indent=1)
        print("RESULT", bug, "property", meta["property"], "caught" if meta["property"] in caught else "MISSED", caught)
    finally:
        shutil.rmtree(work)


main()
