#!/usr/bin/env python3
"""mk.py [id...]: (re)makes /verif/seeded/<id> from the definitions in defs*.py and confirms each in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile, glob, re
H = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(H, "..", "..", "seeded")
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")
defs = {}
for f in sorted(glob.glob(os.path.join(H, "defs*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    defs.update(ns["DEFS"])
base = json.load(open("/opt/vp/BASELINE.json"))


def tests_ok(w):
    p = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "2m", "./..."], cwd=w, env=env, capture_output=True, text=True)
    fails = [x for x in re.findall(r'--- FAIL: (\S+)', p.stdout) if x != 'TestConfig_ParseConfFile']
    return not fails and 'build failed' not in p.stdout and 'panic' not in p.stdout, p.stdout[-600:]


for i in sys.argv[1:] or sorted(defs):
    d = defs[i]
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        shutil.rmtree(w)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        out = os.path.join(SEED, i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/zz_demo_test.go", "w").write("package server\n\n" + d["demo"].strip() + "\n")
        shutil.copy(H + "/helper.go.txt", out + "/zz_help_test.go")
        shutil.copy(H + "/demo.sh.txt", out + "/demo.sh")
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        p = subprocess.run(["bash", out + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
        if p.returncode:
            print(i, "DEMO FAILS ON CLEAN TREE", (p.stdout + p.stderr)[-1500:]); continue
        for f, old, new in d["edits"]:
            s = open(w + "/" + f).read()
            if s.count(old) != 1:
                print(i, "EDIT matches", s.count(old), repr(old)); break
            open(w + "/" + f, "w").write(s.replace(old, new))
        else:
            diff = subprocess.run(["git", "diff", "-U3"], cwd=w, capture_output=True, text=True).stdout
            open(out + "/patch.diff", "w").write(diff)
            ok, log = tests_ok(w)
            if not ok:
                print(i, "TESTS FAIL", log[-1500:]); continue
            bad = 0
            n = d.get("tries", 1)
            for _ in range(3):
                p = subprocess.run(["bash", out + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
                bad += p.returncode != 0
            if "build failed" in p.stdout:
                print(i, "BUILD", p.stdout[-800:]); continue
            # removed lines must be original
            orig = 0
            for f, old, new in d["edits"]:
                bl = subprocess.run(["git", "blame", "-s", "HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
                src = subprocess.run(["git", "show", "HEAD:" + f], cwd="/repo", capture_output=True, text=True).stdout
                l0 = src[:src.index(old)].count("\n")
                import difflib
                o, nw = old.split("\n"), new.split("\n")
                for tag, a, b, c, e in difflib.SequenceMatcher(None, o, nw, False).get_opcodes():
                    if tag in ("replace", "delete"):
                        orig += sum(bl[l0 + k].startswith("^") for k in range(a, b))
            print(i, "ok demo fails %d/3" % bad, "original lines changed:", orig, "" if bad == 3 and orig else "  <<<<<<")
    finally:
        shutil.rmtree(w, ignore_errors=True)
