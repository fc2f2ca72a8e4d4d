#!/usr/bin/env python3
"""Turns a description of a planted bug into /verif/seeded/<id>/ after
confirming, in a scratch copy of /repo, that it builds, keeps the stable tests
passing, and that its demonstration tells the two trees apart.

usage: seed.py FILE.py [id ...]     FILE.py defines SEEDS = [dict(id=, property=,
needs=, what=, edits=[(file, old, new)], files={name: text})]; demo.sh is one of
the files.
"""
import json, os, re, subprocess, sys, runpy, shutil
COPY = "/tmp/seedrepo"
env = dict(os.environ)

def sh(cmd, cwd=COPY, timeout=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def fresh():
    if not os.path.isdir(COPY):
        subprocess.check_call(["cp", "-a", "/repo", COPY])
    sh("git checkout -q -- . ; git fetch -q {} HEAD && git checkout -q --detach FETCH_HEAD".format(os.environ.get('REPO', '/repo')))

def tests():
    """The stable tests, run the way /opt/vp/test.sh does but from the copy."""
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    rc, out = sh("cargo test --workspace --offline --all-targets --no-fail-fast 2>&1")
    if "could not compile" in out:
        return False, out[-3000:]
    bad = re.findall(r"^test (\S+) \.\.\. FAILED", out, re.M)
    return not bad, ("\n".join(bad) or out[-200:])

def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    for s in seeds:
        if want and s["id"] not in want: continue
        fresh()
        d = f"{os.environ.get('SEEDED', '/verif/seeded')}/{s['id']}"
        tmp = f"/tmp/seeddemo/{s['id']}"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        for n, t in s["files"].items():
            open(f"{tmp}/{n}", "w").write(t); os.chmod(f"{tmp}/{n}", 0o755)
        rc, out = sh(f"bash {tmp}/demo.sh")
        if rc != 0:
            print(s["id"], "demo FAILS on the unchanged tree", out[-1500:]); continue
        for f, old, new in s["edits"]:
            p = f"{COPY}/{f}"; t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times in", f, repr(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            rc, diff = sh("git diff")
            rc, out = sh(f"bash {tmp}/demo.sh")
            if rc == 0:
                print(s["id"], "demo PASSES with the bug"); continue
            ok, why = tests()
            if not ok:
                print(s["id"], "tests notice it:", why); continue
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for n in s["files"]:
                shutil.copy(f"{tmp}/{n}", f"{d}/{n}")
            open(f"{d}/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
                      open(f"{d}/meta.json", "w"), indent=1)
            print(s["id"], "kept; demo says:", out.strip().splitlines()[-1][:200] if out.strip() else "")
    fresh()
main()
