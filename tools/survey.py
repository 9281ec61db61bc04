#!/usr/bin/env python3
"""Developer aid: run profiles on 8 workers and group the violations found.
survey.py SECS SEED PROFILE... (world:profile or profile for deploy)"""
import collections, json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
W = int(os.environ.get("W","170"))
secs, seed = sys.argv[1], sys.argv[2]
for prof in sys.argv[3:]:
    world, _, p = prof.rpartition(":")
    world = world or "deploy"
    b = build.build({"threads": "sim_sched", "cache": "sim_cache"}.get(world, "sim_deploy"))
    ps = [subprocess.Popen([b, "run", "--world", world, "--profile", p, "--seed", seed, "--start", str(w * 10 ** 9),
                            "--count", "1000000000", "--secs", secs, "--maxviol", "100000"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
          for w in range(8)]
    groups = collections.OrderedDict()
    runs = 0; stats = collections.Counter()
    for q in ps:
        out, err = q.communicate()
        if q.returncode: print("RC", q.returncode, err.decode()[-500:])
        for l in out.decode(errors="replace").split("\n"):
            if l.startswith("OTHER "): print("  ", l[:W])
        for l in out.decode(errors="replace").split("\n"):
            if l.startswith("VIOL "):
                v = json.loads(l[5:])
                k = (v["cls"], re.sub(r"\d+", "#", v["msg"])[:28])
                groups.setdefault(k, []).append(v)
            elif l.startswith("DONE "):
                runs += json.loads(l[5:])["runs"]
            elif l.startswith("STAT "):
                _, n, c = l.rsplit(" ", 2) if False else l.split(" ", 2)
                stats[n] += int(c)
    print("==", prof, "runs", runs, "groups", len(groups), "other", stats["other_property_violations"])
    for k, vs in sorted(groups.items(), key=lambda kv: -len(kv[1])):
        v = vs[0]
        print("  %5d %s [%s] idx=%s op=%s: %s" % (len(vs), k[0], v["props"], v["index"], v["op"], v["msg"][:W]))
    if os.environ.get("SURVEY_STATS"):
        print("   ", dict(stats))
