#!/usr/bin/env python3
"""Development aid: tries a planted bug (/verif/seeded/<id>) against the tests, its demonstration and the check of its
property.  Applies the patch to /repo and undoes it again.   plant.py [--nocheck] [--also C01,C02] id..."""
import json, os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(c, t=600, cwd="/repo"):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def original(diff):
    """the removed lines must be lines of the base commit"""
    base, bad, n, f, ln = sh("git rev-list --max-parents=0 HEAD")[1].strip(), [], 0, None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame = sh("git blame -s -l HEAD -- " + f)[1].splitlines()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m.group(1))
            continue
        if f and l[:1] == "-" and not l.startswith("---"):
            n += 1
            if not blame[ln - 1].lstrip("^").startswith(base[:30]):
                bad.append(l)
            ln += 1
        elif l[:1] == " ":
            ln += 1
    return n, bad


def main():
    args, check, also = sys.argv[1:], True, []
    if args and args[0] == "--nocheck":
        check = False
        args = args[1:]
    if args and args[0] == "--also":
        also = args[1].split(",")
        args = args[2:]
    if sh("git status --porcelain")[1].strip():
        sys.exit("/repo is not clean")
    for b in args or sorted(os.listdir(S)):
        d = os.path.join(S, b)
        meta = json.load(open(d + "/meta.json"))
        out = []
        n, bad = original(open(d + "/patch.diff").read())
        if not n or bad:
            out.append("LINES(%d, %s)" % (n, bad[:2]))
        rc, o = sh("git apply " + d + "/patch.diff")
        if rc:
            print(b, "DOES NOT APPLY", o)
            continue
        try:
            rc, o = sh("bash /opt/vp/test.sh /tmp/plant.json")
            t = json.load(open("/tmp/plant.json"))
            if len(t["passed"]) != 57:
                out.append("TESTS %d failed %s" % (len(t["passed"]), str(t["failed"])[:200]))
            rc, o = sh("bash " + d + "/demo.sh", 300)
            out.append("demo patched: %d" % rc + ("" if rc else " NOT SHOWN " + o[-300:]) + ((" (%s)" % o.strip()[-160:].replace("\n", " / ")) if rc else ""))
            for p in ([meta["property"]] if check else []) + also:
                rc, o = sh("python3 %s/tools/check.py %s quick" % (V, p), 900)
                m = re.search(r"^(\S+ quick: \d+ runs)", o, re.M)
                out.append("%s: %s %s" % (p, {1: "CAUGHT", 0: "MISSED"}.get(rc, "rc %d" % rc), (m.group(1) if m else o[-300:])))
                if rc == 1:
                    out.append(o.splitlines()[0][:200])
        finally:
            sh("git checkout -- .")
            sh("bash /opt/vp/build.sh")
        rc, o = sh("bash " + d + "/demo.sh", 300)
        if rc:
            out.append("DEMO FAILS ON CLEAN TREE %d %s" % (rc, o[-300:]))
        print(b, "|", "\n    ".join(out), flush=True)


main()
