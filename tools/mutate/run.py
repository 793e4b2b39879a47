#!/usr/bin/env python3
"""run.py OUT [FILTER]: mutants of /repo's files that compile and pass the tests, and which check sees them (scratch copies only)."""
import os, shutil, subprocess, sys, json, re, time, random
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOWORK="off", HOME="/root")
MAP = [("utils/VarInt", "C01 C04 C05"), ("script/OpPushdata", "C02 C03 C12 C10"), ("transaction/input/", "C04 C05 C26 C24 C31"), ("transaction/output/", "C17 C04 C05 C24 C07 C31"),
 ("transaction/Transaction.go", "C06 C26 C08 C04 C05 C29 C30"), ("SignatureHash", "C07 C24"), ("InternalSigner", "C08 C09 C30"), ("UnlockingScript", "C08"),
 ("script/Script.go", "C11 C10 C12 C02 C17 C24 C32"), ("AddressValidation", "C14 C15"), ("BIP276", "C15"), ("address/Address.go", "C13 C11"), ("RedeemScript", "C16 C27"),
 ("BuildBlockHeader", "C18"), ("Merkle", "C19 C24"), ("Coinbase", "C20"), ("Difficulty", "C21 C28"), ("HumanHash", "C28"), ("Encryption", "C22"), ("crypto/Hash", "C23"), ("ByteManip", "C25 C16 C18")]
T = "/tmp/mut"
repo, ver = T + "/repo", T + "/verif"
def sh(cmd, cwd, t=400):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, ""
def main():
    out = sys.argv[1]; flt = sys.argv[2] if len(sys.argv) > 2 else "."
    props = {json.loads(l)["id"] for l in open(V + "/properties.jsonl")} - {x["property_id"] if "property_id" in x else x.get("id") for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
    os.makedirs(T, exist_ok=True)
    shutil.copytree("/repo", repo, symlinks=True); shutil.copytree("/repo", T + "/orig", symlinks=True)
    os.makedirs(ver)
    for d in ("engine", "harness", "bin", "tools"): shutil.copytree(V + "/" + d, ver + "/" + d)
    for f in ("check", "setup.sh", "known-findings.txt", "properties.jsonl", "MANIFEST.json"): shutil.copy(V + "/" + f, ver + "/" + f)
    g = open(ver + "/harness/go.mod").read().replace("=> /repo", "=> " + repo); open(ver + "/harness/go.mod", "w").write(g)
    files = [f for f in subprocess.check_output("git ls-files '*.go'", shell=True, cwd="/repo", text=True).split() if not f.endswith("_test.go")]
    rc, o = sh("cd %s/tools/mutate && go build -o /tmp/mutatebin . && /tmp/mutatebin %s" % (V, " ".join("/repo/" + f for f in files)), V)
    ms = [json.loads(l) for l in o.splitlines() if l.startswith("{")]
    ms = [m for m in ms if re.search(flt, m["File"][6:] + " " + m["Func"])]
    done = set()
    if os.path.exists(out):
        for l in open(out): d = json.loads(l); done.add((d["File"], d["Pos"], d["End"], d["New"]))
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(ms)
    for m in ms:
        k = (m["File"], m["Pos"], m["End"], m["New"])
        if k in done: continue
        rel = m["File"][6:]; p = repo + "/" + rel
        src = open(T + "/orig/" + rel, "rb").read()
        open(p, "wb").write(src[:m["Pos"]] + m["New"].encode() + src[m["End"]:])
        t0 = time.time()
        rc, o = sh("go build ./... && go test -vet=off -count=1 ./...", repo, 120)
        r = "killed"
        if rc == 0:
            r = "SURVIVED"
            ch = next((c for a, c in MAP if a in rel), "")
            for c in ch.split():
                if c not in props: continue
                rc, o = sh("VERIF_REPO=%s ./check %s quick" % (repo, c), ver)
                if rc == 1: r = "caught " + c; break
                if rc != 0: r = "SURVIVED rc%d %s" % (rc, c)
                elif "inconclusive" in o: r = "SURVIVED inconclusive " + c
        m["Result"] = r; m["Secs"] = round(time.time() - t0)
        open(out, "a").write(json.dumps(m) + "\n")
        open(p, "wb").write(src)
    shutil.rmtree(T)
main()
