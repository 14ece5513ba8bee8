#!/usr/bin/env python3
"""seedcheck.py ID...: try seeded changes in a scratch copy of /repo (/tmp/seedwt).

For each: the demo must pass on HEAD, the patched tree must build and pass the stable
tests, the demo must fail on it, and the property's check should report it."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("SEEDWT", "/tmp/seedwt")
HAR = WT + "_harness"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    if not os.path.exists(WT + "/_build/build.ninja"):
        r = sh(f"CC=gcc CXX=g++ cmake -S {HAR} -B {WT}/_build -G Ninja -DCMAKE_BUILD_TYPE=Release")
        assert r.returncode == 0, r.stdout
    return sh(f"ninja -C {WT}/_build")


def tests():
    for t in ("test_boxqp", "test_controls"):
        if sh(f"timeout 120 ./{t}", cwd=WT + "/_build").returncode:
            return False
    return True


def setup():
    if not os.path.exists(WT):
        sh(f"git clone -q /repo {WT} && cp -a /opt/vp/harness {HAR} && sed -i 's#set(REPO /repo)#set(REPO {WT})#' {HAR}/CMakeLists.txt")
    sh(f"git -C {WT} checkout -q -- . && git -C {WT} fetch -q origin && git -C {WT} reset -q --hard origin/HEAD")


def main(ids):
    nocheck = "--nocheck" in ids
    ids = [i for i in ids if i != "--nocheck"]
    setup()
    r = build()
    assert r.returncode == 0, r.stdout[-3000:]
    for i in ids:
        d = f"{HERE}/seeded/{i}"
        meta = json.load(open(d + "/meta.json"))
        base = sh(f"timeout 300 bash {d}/demo.sh", cwd=WT)
        print(f"{i} [{meta['property']}]: demo on HEAD rc={base.returncode}" + ("" if base.returncode == 0 else "\n" + base.stdout[-300:]), flush=True)
    for i in ids:
        d = f"{HERE}/seeded/{i}"
        meta = json.load(open(d + "/meta.json"))
        r = sh(f"git -C {WT} apply {d}/patch.diff")
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout)
            continue
        try:
            r = build()
            if r.returncode:
                print(i, "BUILD FAILS", r.stdout[-1500:])
                continue
            t = tests()
            p = sh(f"timeout 300 bash {d}/demo.sh", cwd=WT)
            if nocheck:
                print(f"{i}: tests={t} demo rc={p.returncode} {p.stdout[-200:]}", flush=True)
                continue
            env = dict(os.environ, VF_REPO=WT, VF_BUILD=WT + "_vb", VERIF_TIER="quick", VERIF_SEED="1", VF_EVIDENCE=WT + "_ev")
            c = sh(f"python3 {HERE}/run.py check {meta['property']}", env=env)
            viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i} [{meta['property']}]: tests={'ok' if t else 'FAIL'} demo rc={p.returncode} check rc={c.returncode} {viol[:1]}", flush=True)
            keys = [l for l in c.stdout.splitlines() if "key" in l or "what" in l][:3]
            if c.returncode != 1:
                print(c.stdout[-1500:])
        finally:
            sh(f"git -C {WT} checkout -q -- .")


main(sys.argv[1:])
