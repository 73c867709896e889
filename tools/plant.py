#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and runs checks against it.

  plant.py ID [CHECK ...]    applies seeded/ID/patch.diff to a copy, builds it, runs the stable tests and the demo with and
                             without the patch, then the named checks (default: its property's) against the patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def copy(dst):
    shutil.copytree("/repo", dst, symlinks=True, ignore=shutil.ignore_patterns("build", "__pycache__", "*.so"))
    for s in ("build.sh", "test.sh"):
        text = open("/opt/vp/" + s).read().replace("/repo", dst).replace("/opt/vp/build.sh", dst + ".build.sh")
        text = text.replace("/opt/vp/reports", dst + ".reports")
        open(dst + "." + s, "w").write(text)
    rc, out = sh(["bash", dst + ".build.sh"], dst)
    assert rc == 0, out[-2000:]


def demo(bug, tree):
    d = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(bug):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy2(os.path.join(bug, f), d)
    try:
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], tree, 300)
    except subprocess.TimeoutExpired:
        rc, out = 124, "timeout"
    shutil.rmtree(d)
    return rc, out


def main():
    bid = sys.argv[1]
    bug = os.path.join(HERE, "seeded", bid)
    meta = json.load(open(os.path.join(bug, "meta.json")))
    checks = sys.argv[2:] or [meta["property"]]
    root = tempfile.mkdtemp(prefix="plant")
    try:
        w = os.path.join(root, "w")
        copy(w)
        rc, out = demo(bug, w)
        print("demo unpatched", rc, "" if rc == 0 else out[-1500:])
        rc, out = sh(["git", "apply", os.path.join(bug, "patch.diff")], w)
        assert rc == 0, out
        rc, out = sh(["bash", w + ".test.sh", root + "/o.json"], w)
        try:
            got = json.load(open(root + "/o.json"))
        except OSError:
            print("no test result", out[-2000:])
            return
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        passed = set(got.get("passed", got))
        miss = [t for t in stable if t not in passed] if isinstance(stable, list) else "?"
        print("tests: %d passed, stable missing %s" % (len(passed), miss))
        rc, out = demo(bug, w)
        print("demo patched", rc, out[-600:].strip())
        for c in checks:
            if c == "none":
                continue
            env = dict(os.environ, SACF_REPO=w)
            rc, out = sh([sys.executable, os.path.join(HERE, "run.py"), "check", c], HERE, 4000, env)
            print(c, "->", rc, "\n".join(out.strip().splitlines()[-6:]), flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
