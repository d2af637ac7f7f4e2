#!/usr/bin/env python3
"""Turn a description of a planted bug into seeded/<id>/ and confirm it.

usage: mkseed.py SPEC.py [id ...]

SPEC.py defines BUGS, a list of dictionaries: id, property, edits (list of
(file, old, new) or (file, old, new, nth)), needs, breaks, demo (C source),
and optionally ldflags.  The change is made in a scratch copy of /repo under
/tmp.  It is kept when it builds, passes the stable tests, and the demo tells
the changed tree from the unchanged one.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is not.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
lib=target/Linux-$(uname -m)/lib/libaerospike-common.a
gcc -std=gnu99 -D_GNU_SOURCE -O1 -w -Isrc/include "$here/demo.c" "$lib" %s-lssl -lcrypto -lpthread -lm -ldl -o "$work/demo" || exit 2
cd "$work" || exit 2
timeout 200 ./demo
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def script(name, tree):
    """The project's build or test script, moved to the scratch copy."""
    p = os.path.join(os.path.dirname(tree), name)
    text = open("/opt/vp/" + name).read().replace("cd /repo", "cd " + tree)
    open(p, "w").write(text.replace("/opt/vp/build.sh", os.path.join(os.path.dirname(tree), "build.sh")))
    return p


def build_and_demo(tree, demo):
    mk = sh(["bash", script("build.sh", tree)], tree)
    if mk.returncode:
        return None, mk.stdout[-2000:]
    r = sh(["bash", demo], tree, timeout=400)
    return r.returncode, r.stdout[-600:]


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = set(sys.argv[2:])
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        scratch = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        tree = os.path.join(scratch, "repo")
        try:
            shutil.copytree("/repo", tree, symlinks=True)
            d = os.path.join(scratch, "d")
            os.makedirs(d)
            open(os.path.join(d, "demo.c"), "w").write(b["demo"].lstrip("\n"))
            ld = b.get("ldflags", "")
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % (ld + " " if ld else ""))
            rc0, out0 = build_and_demo(tree, os.path.join(d, "demo.sh"))
            for e in b["edits"]:
                f, old, new = e[:3]
                nth = e[3] if len(e) > 3 else 1
                p = os.path.join(tree, f)
                s = open(p).read()
                i = -1
                for _ in range(nth):
                    i = s.find(old, i + 1)
                    if i < 0:
                        raise SystemExit("%s: pattern not found in %s" % (b["id"], f))
                open(p, "w").write(s[:i] + new + s[i + len(old):])
            diff = sh(["git", "diff", "--", "src"], tree).stdout
            rc1, out1 = build_and_demo(tree, os.path.join(d, "demo.sh"))
            tests = "?"
            ok = rc0 == 0 and rc1 not in (0, None)
            if ok:
                tests = run_tests(tree, scratch)
                ok = tests == []
            print("%-28s %s clean=%s bug=%s tests=%s" % (b["id"], "kept" if ok else "REJECTED", rc0, rc1, "ok" if tests == [] else tests), flush=True)
            if not ok:
                print(out0, out1)
                continue
            out = os.path.join(ROOT, "seeded", b["id"])
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            shutil.copy(os.path.join(d, "demo.c"), out)
            shutil.copy(os.path.join(d, "demo.sh"), out)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


def run_tests(tree, scratch):
    """Stable tests that fail in the changed tree."""
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = os.path.join(scratch, "out.json")
    r = sh(["bash", script("test.sh", tree), out], tree)
    try:
        passed = set(json.load(open(out))["passed"])
    except OSError:
        return [r.stdout[-500:]]
    return sorted(set(base["stable"]) - passed)[:5]


if __name__ == "__main__":
    main()
