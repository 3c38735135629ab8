#!/usr/bin/env python3
"""plant.py SPEC.py...: turn bug descriptions into /verif/seeded/<id>/ after
confirming, in scratch copies of /repo, that the bug passes the stable tests,
that its demonstration tells it from the unchanged tree, and which check
catches it.   plant.py --recheck [id...]: only run the checks again."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LANG=C.UTF-8
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def copy_repo(d):
    subprocess.check_call(["cp", "-a", "/repo", os.path.join(d, "repo")])
    return os.path.join(d, "repo")


def run_tests(repo, d):
    sh = open("/opt/vp/test.sh").read().replace("/repo", repo).replace("/opt/vp/work", os.path.join(d, "work"))
    p = os.path.join(d, "test.sh")
    open(p, "w").write(sh)
    subprocess.call(["bash", p, os.path.join(d, "out.json")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    got = set(json.load(open(os.path.join(d, "out.json")))["passed"])
    return sorted(BASE - got)


def demo(bugdir, repo):
    p = subprocess.run(["bash", os.path.join(bugdir, "demo.sh")], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode("utf-8", "replace")[-600:]


def check(prop, repo, env=None):
    e = dict(os.environ, SIM_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
    e.update(env or {})
    p = subprocess.run([os.path.join(ROOT, "check"), prop], cwd=ROOT, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode("utf-8", "replace")
    m = re.search(r"^violated.*$", out, re.M)
    return p.returncode, (m.group(0) if m else out[-300:])


def plant(specfile):
    ns = {}
    exec(compile(open(specfile, encoding="utf-8").read(), specfile, "exec"), ns)
    bid = ns["id"]
    d = tempfile.mkdtemp(prefix="plant-")
    log = [bid]
    try:
        repo = copy_repo(d)
        bugdir = os.path.join(d, "bug")
        os.mkdir(bugdir)
        open(os.path.join(bugdir, "demo.py"), "w").write(ns["demo"])
        open(os.path.join(bugdir, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(bugdir, "demo.sh"), 0o755)
        rc, txt = demo(bugdir, repo)
        if rc:
            return "%s: REJECTED demo fails on the unchanged tree: %s" % (bid, txt)
        for fn, old, new in ns["edits"]:
            p = os.path.join(repo, fn)
            s = open(p, "rb").read()
            o, n = old.encode("latin-1"), new.encode("latin-1")
            if b"\r\n" in s and b"\r\n" not in o:
                o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
            if s.count(o) != 1:
                return "%s: REJECTED %r occurs %d times in %s" % (bid, old[:60], s.count(o), fn)
            open(p, "wb").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(bugdir, "patch.diff"), "wb").write(diff)
        json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["what"]), open(os.path.join(bugdir, "meta.json"), "w"), indent=1)
        rc, txt = demo(bugdir, repo)
        if rc == 0:
            return "%s: REJECTED demo passes with the patch" % bid
        log.append("demo: " + txt.strip().splitlines()[-1][:150] if txt.strip() else "demo: -")
        if rc > 128 or rc == 124:
            log.append("demo rc %d" % rc)
        miss = run_tests(repo, d)
        if miss:
            return "%s: REJECTED breaks tests %s" % (bid, miss[:4])
        dst = os.path.join(SEEDED, bid)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(bugdir, dst)
        rc, txt = check(ns["property"], repo)
        log.append("check %s: %s  %s" % (ns["property"], {1: "CAUGHT", 0: "MISSED"}.get(rc, "ERROR %d" % rc), txt[:300]))
        for other in ns.get("also", []):
            rc, txt = check(other, repo)
            log.append("check %s: %s  %s" % (other, {1: "caught", 0: "missed"}.get(rc, "ERROR %d" % rc), txt[:200]))
        return "\n   ".join(log)
    except Exception as e:
        return "%s: ERROR %r" % (bid, e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(bid, seeds=("1",)):
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = copy_repo(d)
        bug = os.path.join(SEEDED, bid)
        rc = subprocess.call(["git", "-C", repo, "apply", os.path.join(bug, "patch.diff")])
        if rc:
            return "%s: patch does not apply" % bid
        prop = json.load(open(os.path.join(bug, "meta.json")))["property"]
        out = []
        for s in seeds:
            rc, txt = check(prop, repo, dict(VERIF_SEED=s))
            out.append("%s %s" % ({1: "CAUGHT", 0: "MISSED"}.get(rc, "ERROR %d" % rc), txt[:200]))
        return "%s %s %s" % (bid, prop, "\n      ".join(out))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--recheck"]:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for b in ids:
            print(recheck(b))
            sys.stdout.flush()
    else:
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(plant, sys.argv[1:]):
                print(r)
                sys.stdout.flush()
