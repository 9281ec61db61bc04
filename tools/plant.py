#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy: plant.py [--checks] ID...

For each /verif/seeded/ID: the demonstration passes on the unchanged tree, the
patch applies and builds, the stable tests pass, the demonstration fails.  With
--checks also runs this property's check (or --props A,B) against the patched copy.
"""
import argparse, json, os, re, shutil, subprocess, sys
import xml.etree.ElementTree as ET
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
REPO = SCRATCH + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build():
    env = dict(os.environ, CC="/usr/bin/clang-18", CXX="/usr/bin/clang++-18")
    if not os.path.exists(REPO + "/_build/build.ninja"):
        r = sh(["cmake", "-S", "/opt/vp/cmake", "-B", REPO + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                "-DCMAKE_CXX_FLAGS_DEBUG=-g -O1", "-DREPO=" + REPO], env=env)
        if r.returncode:
            return r
    return sh(["ninja", "-C", REPO + "/_build", "-j8"], env=env)


def reset():
    sh(["git", "-C", REPO, "checkout", "-q", "--", "."])


def tests():
    rep = SCRATCH + "/junit.xml"
    if os.path.exists(rep):
        os.unlink(rep)
    sh(["ctest", "--test-dir", REPO + "/_build", "-j8", "--timeout", "300", "--output-junit", rep],
       env=dict(os.environ, TEST_SRCDIR=SCRATCH, TEST_WORKSPACE="repo"))
    bad, n = [], 0
    for c in ET.parse(rep).getroot().iter("testcase"):
        n += 1
        if c.get("status") != "run":
            bad.append(c.get("name"))
    return n, bad


def demo(d):
    # as the gate lays it out: elsewhere, without patches and meta.json
    to = SCRATCH + "/demo"
    shutil.rmtree(to, ignore_errors=True)
    shutil.copytree(d, to, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    return sh(["bash", to + "/demo.sh"], cwd=REPO, timeout=300)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks", action="store_true")
    ap.add_argument("--nodemo", action="store_true")
    ap.add_argument("--props")
    ap.add_argument("--secs")
    ap.add_argument("--seed", default="1")
    a = ap.parse_args()
    if not os.path.isdir(REPO):
        os.makedirs(SCRATCH, exist_ok=True)
        sh(["git", "clone", "-q", "/repo", REPO])
    sh(["git", "-C", REPO, "fetch", "-q", "origin"])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh(["git", "-C", REPO, "checkout", "-q", "-f", head])
    ids = a.ids or sorted(os.listdir(VERIF + "/seeded"))
    if not a.nodemo:
        r = build()
        if r.returncode:
            sys.exit(r.stdout.decode())
        clean = {i: demo("%s/seeded/%s" % (VERIF, i)) for i in ids}
    for i in ids:
        d = "%s/seeded/%s" % (VERIF, i)
        meta = json.load(open(d + "/meta.json"))
        msg = []
        reset()
        r = sh(["git", "-C", REPO, "apply", d + "/patch.diff"])
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout.decode())
            continue
        if not a.nodemo:
            if clean[i].returncode:
                msg.append("DEMO FAILS ON CLEAN TREE: " + clean[i].stdout.decode()[-1500:])
            r = build()
            if r.returncode:
                print(i, "DOES NOT BUILD", r.stdout.decode()[-3000:])
                continue
            n, bad = tests()
            if bad or n < 207:
                msg.append("TESTS FAIL (%d): %s" % (n, bad[:5]))
            r = demo(d)
            if r.returncode == 0:
                msg.append("DEMO PASSES WITH THE PATCH: " + r.stdout.decode()[-500:])
            elif not msg:
                msg.append("ok (%s)" % (r.stdout.decode().strip().splitlines() or [""])[-1][:110])
        if a.checks:
            for p in (a.props.split(",") if a.props else [meta["property"]]):
                cmd = [sys.executable, VERIF + "/check.py", p] + (["--secs", a.secs] if a.secs else [])
                r = sh(cmd, env=dict(os.environ, SIM_REPO=REPO, VERIF_SEED=a.seed))
                out = r.stdout.decode(errors="replace").strip().splitlines()
                msg.append("\n   %s: exit %d %s" % (p, r.returncode, " / ".join(x[:170] for x in out[-3:])))
        print(i, meta["property"], "; ".join(msg), flush=True)
    reset()


main()
