#!/usr/bin/env python3
"""Development tool: confirm a planted bug in the scratch copy /tmp/wt and keep it under seeded/.
plant.py SPEC.py ; SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source), optional CONFIG='up'."""
import os, subprocess, sys, json, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WT = "/tmp/wt"
SH = '''#!/bin/bash
# exit 0 on the right tree, non-zero when the property is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -w -O0 -g %(flags)s -I include -I include/api -I include/internal -I lib/src/private -I lib/src/pal -I "$here" "$here/demo.cc" _build/%(cfg)s/bin/libmli.a -o "$work/demo" || exit 99
timeout 120 "$work/demo"
'''


def sh(cmd, cwd=WT):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def apply(edits):
    for path, old, new in edits:
        p = os.path.join(WT, path)
        b = open(p, "rb").read()
        crlf = b"\r\n" in b
        o, n = old.encode(), new.encode()
        if crlf:
            o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
        assert b.count(o) == 1, (path, b.count(o), old)
        open(p, "wb").write(b.replace(o, n))


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(VERIF, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .")
    cfg = ns.get("CONFIG", "up")
    flags = {"up": "-DROUND_MODE_UP", "convergent": "-DROUND_MODE_CONVERGENT", "up_fullaccu_dbg": "-DROUND_MODE_UP -DFULL_ACCU -DMLI_DEBUG_MODE=DBG_MODE_FULL"}[cfg]
    open(os.path.join(d, "demo.sh"), "w").write(SH % dict(cfg=cfg, flags=ns.get("FLAGS", "") + " " + flags))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cc"), "w").write(ns["DEMO"])
    shutil.copy(os.path.join(HERE, "demo.h"), d)
    if "demo3.h" in ns["DEMO"]: shutil.copy(os.path.join(HERE, "demo3.h"), d)
    r = sh("bash /tmp/vpwt/build.sh")
    assert r.returncode == 0, r.stdout[-2000:]
    r = sh("bash %s/demo.sh" % d)
    if r.returncode != 0:
        print("DEMO FAILS ON BASE", r.returncode, r.stdout[-1500:], r.stderr[-3000:]); shutil.rmtree(d); return 1
    try:
        apply(ns["EDITS"])
        diff = subprocess.run(["git", "diff"], cwd=WT, capture_output=True).stdout
        r = sh("bash /tmp/vpwt/build.sh")
        if r.returncode: print("DOES NOT BUILD", (r.stdout + r.stderr)[-3000:]); shutil.rmtree(d); return 1
        r = sh("bash /tmp/vpwt/test.sh /tmp/wt.bug.json")
        j = json.load(open("/tmp/wt.bug.json"))
        if j["failed"] or len(j["passed"]) < 1989: print("TESTS CATCH IT", len(j["failed"]), j["failed"][:4]); shutil.rmtree(d); return 1
        r = sh("bash %s/demo.sh" % d)
        if r.returncode == 0 or r.returncode == 99: print("DEMO DOES NOT FAIL", r.returncode, r.stderr[-2000:]); shutil.rmtree(d); return 1
        print("demo:", r.returncode, r.stdout[-300:].strip())
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        sh("git checkout -q -- .")
    print("KEPT", ns["ID"])
    return 0


if __name__ == "__main__":
    rc = 0
    for s in sys.argv[1:]:
        rc |= main(s)
    sys.exit(rc)
