#!/usr/bin/env python3
"""trypatch.py DIFF CHECK... : applies DIFF to a scratch copy of /repo, builds and tests it and runs the checks on it
(from a scratch copy of /verif). With a directory instead of DIFF (a seeded bug), also runs its demo.sh before and after. Without CHECKs: those named in the file's first line, or the seeded bug's property."""
import os, shutil, subprocess, sys, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local",
           GONOSUMDB="*", GOWORK="off", HOME="/root")
def sh(cmd, cwd, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def passed(repo):
    rc, out = sh("go test -json -vet=off -count=1 ./...", repo)
    s = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Action") == "pass" and d.get("Test"): s.add(d["Package"] + " " + d["Test"])
        if d.get("Action") == "fail" and d.get("Test"): print("   FAILS", d["Package"], d["Test"])
    return s
def main():
    src, checks = sys.argv[1], sys.argv[2:]
    patch = os.path.join(src, "patch.diff") if os.path.isdir(src) else src
    tmp = tempfile.mkdtemp(prefix="try.", dir="/tmp")
    repo, ver = tmp + "/repo", tmp + "/verif"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        sh("git checkout -q -- .", repo)
        base = None
        if os.path.isdir(src):
            rc, out = sh("bash %s/demo.sh" % os.path.abspath(src), repo)
            print("demo unchanged:", rc)
            if rc != 0: print(out[-1500:])
            if not checks: checks = [json.load(open(src + "/meta.json"))["property"]]
        elif not checks:
            checks = open(src).readline().replace("# checks:", "").split()
        rc, out = sh("git apply %s" % os.path.abspath(patch), repo)
        if rc: print("patch does not apply", out); return
        rc, out = sh("go build ./... && go vet ./... 2>&1 | grep -v '^#' | head -5", repo)
        print("build", rc, out[-500:])
        n = passed(repo)
        print("tests passed:", len(n))
        if os.path.isdir(src):
            rc, out = sh("bash %s/demo.sh" % os.path.abspath(src), repo)
            print("demo patched:", rc, "" if rc else "NOT DETECTED BY DEMO")
        os.makedirs(ver)
        for d in ("engine", "harness", "bin", "tools"):
            shutil.copytree(V + "/" + d, ver + "/" + d)
        for f in ("check", "setup.sh", "known-findings.txt", "properties.jsonl", "MANIFEST.json"):
            shutil.copy(V + "/" + f, ver + "/" + f)
        g = open(ver + "/harness/go.mod").read().replace("=> /repo", "=> " + repo)
        open(ver + "/harness/go.mod", "w").write(g)
        for c in checks:
            rc, out = sh("VERIF_REPO=%s ./check %s quick" % (repo, c), ver)
            ls = out.splitlines()
            print(c, "rc", rc, "|", ls[-1][:200] if ls else "")
            k = [i for i, l in enumerate(ls) if l.startswith("VIOLATION")]
            for i in k[:2]: print("    ", ls[i-2][:200] if i > 1 else "", "/", ls[i-1][:160])
    finally:
        shutil.rmtree(tmp)
main()
