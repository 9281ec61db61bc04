#!/usr/bin/env python3
"""Decides one property by deterministic simulation of /repo's working tree.

  check.py PROPERTY [--tier quick|thorough] [--secs S]   search
  check.py --replay FILE                                 run one replay file again

Exit 0: no violation found. Exit 1 and a VIOLATION line: one was found,
confirmed (equal event log twice), minimised and replayed in a fresh process.
Anything else is an error of the check.
"""
import argparse, array, collections, concurrent.futures, hashlib, json, os, re, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402

DEPLOY = ["V01", "V02", "V03", "V04", "V05", "V06", "V07", "V08", "V10", "V11", "V12", "K01", "K02", "K03"]
CACHE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]
WORLD = {**{p: "deploy" for p in DEPLOY}, **{p: "cache" for p in CACHE}, "V09": "threads"}
TARGET = {"deploy": "sim_deploy", "cache": "sim_cache", "threads": "sim_sched"}
QUICK_S, THOROUGH_S = 28.0, 660.0
MINIMISE_S, MAX_CANDIDATES = 60.0, 6
WORKERS = 8

REAL = {
    "deploy": {"real": ["src/jwt.cc", "src/jwks.cc", "src/verify.cc", "src/check_audience.cc", "src/status.cc",
                        "src/struct_utils.cc", "BoringSSL libcrypto", "protobuf JSON parser", "abseil"],
               "simulated": ["network between issuers, key servers and verifiers (deliveries are byte strings)",
                             "clock_gettime/gettimeofday/time, rdtsc", "operator new/delete and OPENSSL_malloc (real heap behind them)",
                             "failure of libcrypto calls (the real call otherwise)", "issuers (sign with real BoringSSL keys)"]},
    "cache": {"real": ["simple_lru_cache/simple_lru_cache.h", "simple_lru_cache/simple_lru_cache_inl.h",
                       "absl::flat_hash_map, std::unordered_map"],
              "simulated": ["clients and their interleaving", "clock_gettime (monotonic and wall)", "operator new (real heap behind it)"]},
    "threads": {"real": ["src/*.cc instrumented access by access", "pthreads (parked and released one at a time)",
                         "BoringSSL libcrypto, protobuf, abseil (their synchronisation calls are intercepted, their memory accesses are not instrumented)"],
                "simulated": ["the scheduler: which thread runs after every instrumented access, lock, allocation",
                              "mutexes, rwlocks, once, condition variables, futexes", "clocks", "allocator (freed memory is quarantined)"]},
}
RULE = {
    "deploy": "One case is one simulated history: a seeded plan of key publication, token issue, delivery (lost, duplicated, reordered, "
              "damaged, spliced), clock movement, faults and object reuse, executed against the real library. Non-trivial: at least 8 logged "
              "events. Distinct: different event log hash. States: distinct abstract outcomes (kind of delivery, algorithm, key source and "
              "number, eligibility, time and audience class, fault fired, verdict).",
    "cache": "One case is one simulated history of several clients on one cache: a seeded plan of insertions, lookups, releases, removals, "
             "resizes, limit and mode changes, clock steps and allocation faults. Non-trivial: at least 8 logged events. Distinct: different "
             "event log hash. States: distinct abstract cache contents (entries in eviction order with users, size class, nearness of expiry, "
             "removed entries, mode).",
    "threads": "One case is one simulated execution of 2 to 6 threads under one seeded schedule. Non-trivial: at least 8 logged events. "
               "Distinct: different event log hash (the log holds every schedule decision). States: distinct thread "
               "switches (operation kind left, kind of switch point, operation kind entered).",
}


class Err(Exception):
    pass


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return out


def is_known(known, v):
    return any(c == v["cls"] and r.search(v["msg"]) for c, r, _ in known)


def concerns(v, prop):
    return v["props"] == "*" or prop in v["props"].split()


def execute(binary, text, target):
    """One plan in a fresh process -> (hash, [violations])."""
    fd, path = tempfile.mkstemp(prefix="plan-")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    try:
        r = subprocess.run([binary, "exec", "--plan", path, "--target", target], capture_output=True, timeout=600)
    finally:
        os.unlink(path)
    if r.returncode:
        raise Err("simulator failed (%d): %s" % (r.returncode, r.stderr.decode(errors="replace")[-2000:]))
    h, vs = None, []
    for l in r.stdout.decode(errors="replace").splitlines():
        if l.startswith("HASH "):
            h = l[5:]
        elif l.startswith("VIOL "):
            vs.append(json.loads(l[5:]))
    if h is None:
        raise Err("no result")
    return h, vs


def same(vs, cls):
    return [v for v in vs if v["cls"] == cls]


def minimise(binary, text, prop, cls, known, budget):
    """Delta debugging over plan lines while the violation class persists."""
    t0 = time.time()
    lines = text.splitlines()
    head = [l for l in lines if l.split(" ", 1)[0] in ("world", "profile", "seed", "#")]
    body = [l for l in lines if l not in head]

    def test(b):
        if time.time() - t0 > budget:
            return None
        try:
            _, vs = execute(binary, "\n".join(head + b) + "\n", prop)
        except (Err, subprocess.TimeoutExpired):
            return None
        vs = [v for v in same(vs, cls) if not is_known(known, v)]
        return bool(vs)

    tried = 0
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        n = 2
        while len(body) >= 2 and time.time() - t0 < budget:
            size = max(1, len(body) // n)
            starts = list(range(0, len(body), size))
            hit = None
            for i in range(0, len(starts), WORKERS):
                group = starts[i:i + WORKERS]
                cands = [body[:s] + body[s + size:] for s in group]
                tried += len(cands)
                for c, ok in zip(cands, ex.map(test, cands)):
                    if ok:
                        hit = c
                        break
                if hit or time.time() - t0 > budget:
                    break
            if hit is not None:
                body = hit
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(body), n * 2)
        # smaller numbers, last
        i = 0
        while i < len(body) and time.time() - t0 < budget:
            parts = body[i].split(" ")
            cands = []
            for k in range(1, len(parts)):
                if parts[k] not in ("0", "1"):
                    for r in ("0", "1"):
                        cands.append(body[:i] + [" ".join(parts[:k] + [r] + parts[k + 1:])] + body[i + 1:])
            if parts[0] == "sched":
                cands = []
            tried += len(cands)
            hit = None
            for c, ok in zip(cands, ex.map(test, cands)):
                if ok:
                    hit = c
                    break
            if hit:
                body = hit
            else:
                i += 1
    return "\n".join(head + body) + "\n", tried


def search(binary, world, prop, seed, secs, tmp):
    procs = []
    for w in range(WORKERS):
        states = os.path.join(tmp, "states%d" % w)
        out = open(os.path.join(tmp, "out%d" % w), "wb")
        cmd = [binary, "run", "--world", world, "--profile", prop, "--seed", str(seed), "--start", str(w * 10 ** 9),
               "--count", str(10 ** 9), "--secs", str(secs), "--maxviol", "2", "--states", states]
        procs.append((subprocess.Popen(cmd, stdout=out, stderr=subprocess.PIPE, start_new_session=True), out.name, states))
    t0 = time.time()
    first = None
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.2)
        if first is None and any(b"VIOL " in open(o, "rb").read() for _, o, _ in procs):
            first = time.time()
        # once something was found the others get a moment to find something simpler
        if (first and time.time() - first > 3) or time.time() - t0 > secs + 120:
            for p, _, _ in procs:
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
            break
    tot = collections.Counter()
    stats = collections.Counter()
    states, runs = set(), set()
    cands = []
    for w, (p, o, sf) in enumerate(procs):
        err = p.communicate()[1].decode(errors="replace")
        if p.returncode not in (0, -9):
            raise Err("worker %d ended with %s: %s" % (w, p.returncode, err[-2000:]))
        for l in open(o, errors="replace"):
            if l.startswith("VIOL "):
                cands.append(json.loads(l[5:]))
            elif l.startswith("STAT "):
                _, k, v = l.split()
                stats[k] += int(v)
            elif l.startswith("DONE "):
                for k, v in json.loads(l[5:]).items():
                    tot[k] += v
        for f, s in ((sf, states), (sf + ".runs", runs)):
            if os.path.exists(f):
                a = array.array("Q")
                with open(f, "rb") as fh:
                    a.frombytes(fh.read())
                s.update(a)
    if not cands and tot["runs"] == 0:
        raise Err("no run was completed")
    return cands, tot, stats, states, runs, time.time() - t0


def fault_free(text):
    return "\n".join(l for l in text.splitlines() if l.split(" ", 1)[0] != "fault") + "\n"


def decide(binary, world, prop, cands, seed, known):
    """Confirms, minimises and writes out the first candidate that is this property's."""
    notes = []
    cands.sort(key=lambda v: v["index"] % 10 ** 9)
    for v in cands[:MAX_CANDIDATES]:
        if is_known(known, v):
            continue
        text = subprocess.run([binary, "gen", "--world", world, "--profile", prop, "--seed", str(seed), "--index", str(v["index"])],
                              capture_output=True, check=True).stdout.decode()
        (h1, a), (h2, b) = execute(binary, text, prop), execute(binary, text, prop)
        if h1 != h2 or not same(a, v["cls"]) or not same(b, v["cls"]):
            notes.append("index %d: %s not confirmed (%s / %s)" % (v["index"], v["cls"], h1, h2))
            continue
        if prop == "C07":
            # a violation that needs no failing allocation is another property's
            _, c = execute(binary, fault_free(text), "")
            if same(c, v["cls"]):
                notes.append("index %d: %s also without faults" % (v["index"], v["cls"]))
                continue
        small, tried = minimise(binary, text, prop, v["cls"], known, MINIMISE_S)
        (h1, a), (h2, b) = execute(binary, small, prop), execute(binary, small, prop)
        if h1 != h2 or not same(a, v["cls"]) or not same(b, v["cls"]):
            small = text
            h1, a = execute(binary, small, prop)
        m = same(a, v["cls"])[0]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.plan" % (prop, hashlib.sha256(small.encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            f.write("# property %s\n# class %s\n# what %s\n# log %s\n# found by VERIF_SEED=%d run %d; %d of %d lines left after %d trials\n"
                    "# replay: python3 check.py --replay %s\n" %
                    (prop, v["cls"], m["msg"], h1, seed, v["index"], len(small.splitlines()), len(text.splitlines()), tried, path))
            for l in locations(binary, m["msg"]):
                f.write("# %s\n" % l)
            f.write(small)
        # once more, from the file, in a process of its own
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], capture_output=True)
        if r.returncode != 1:
            raise Err("the replay file %s does not reproduce the violation: %s" % (path, r.stdout.decode(errors="replace")[-1000:]))
        return m, path, small, notes
    return None, None, None, notes


def locations(binary, msg):
    """Source lines of the code addresses in a message."""
    out = []
    for a in re.findall(r"pc\+(0x[0-9a-f]+)", msg):
        # the address is where the access returns to
        r = subprocess.run(["addr2line", "-Cfpe", binary, hex(int(a, 16) - 1)], capture_output=True)
        if r.returncode == 0:
            out.append("pc+%s: %s" % (a, r.stdout.decode(errors="replace").strip()[:300]))
    return out


def replay(path):
    head = {}
    text = open(path).read()
    for l in text.splitlines():
        m = re.match(r"# (property|class|log) (.*)", l)
        if m:
            head[m.group(1)] = m.group(2)
    world = re.search(r"^world (\S+)", text, re.M).group(1)
    binary = build.build(TARGET[world])
    h, vs = execute(binary, text, head["property"])
    hit = same(vs, head["class"])
    print("log %s%s" % (h, "" if h == head.get("log") else " (file says %s)" % head.get("log")))
    for v in vs:
        print("%s at step %d: %s" % (v["cls"], v["op"], v["msg"]))
    if hit and h == head.get("log"):
        print("reproduced exactly: %s" % hit[0]["msg"])
        return 1
    if hit:
        print("reproduced, with another event log (the code differs from when it was recorded)")
        return 3
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.property
    world = WORLD[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    secs = a.secs or (THOROUGH_S if tier == "thorough" else QUICK_S)
    t0 = time.time()
    binary = build.build(TARGET[world])
    t_build = time.time() - t0
    known = known_findings(prop)
    for _, _, desc in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
        cands, tot, stats, states, runs, took = search(binary, world, prop, seed, secs, tmp)
    viol = path = None
    notes = []
    if cands:
        viol, path, small, notes = decide(binary, world, prop, cands, seed, known)
    sample = subprocess.run([binary, "gen", "--world", world, "--profile", prop, "--seed", str(seed), "--index", "0"],
                            capture_output=True, check=True).stdout.decode()
    hours = max(took, 1e-3) / 3600
    cov = {
        "evaluations": tot["runs"], "distinct_nontrivial": len(runs), "rule": RULE[world],
        "samples": [sample[:3000]] + ([small[:3000]] if viol else []),
        "runs_per_hour": int(tot["runs"] / hours), "seeds_per_hour": int(tot["runs"] / hours),
        "simulated_seconds": round(tot["sim_ns"] / 1e9, 3), "events": tot["events"], "distinct_states": len(states),
        "faults_injected": {k: v for k, v in sorted(stats.items()) if k.startswith(("fault.", "fired.", "net.", "clock."))},
        "probes": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault.", "fired.", "net.", "clock."))},
        "components": REAL[world], "workers": WORKERS, "build_s": round(t_build, 1), "search_s": round(took, 1),
        "exhaustive": False,
    }
    if notes:
        cov["not_confirmed"] = notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "violations": 1 if viol else 0,
          "assumptions": ["a clean batch of sampled runs is evidence, not proof"], "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = os.path.join(VERIF, "evidence", prop + ".json")
    with open(out + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(out + ".tmp", out)
    print("%s: %d runs (%d distinct), %d states, %.0f simulated s, %.1f s" %
          (prop, tot["runs"], len(runs), len(states), tot["sim_ns"] / 1e9, took))
    if viol:
        print("%s: %s" % (viol["cls"], viol["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    bad = [n for n in notes if "not confirmed" in n]
    if bad:
        raise Err("; ".join(bad))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        sys.stderr.write("build failed:\n%s\n" % str(e)[-6000:])
        sys.exit(2)
    except Err as e:
        sys.stderr.write("error: %s\n" % e)
        sys.exit(2)
