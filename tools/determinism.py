#!/usr/bin/env python3
"""Determinism self-test: every run twice, in different processes, at different worker counts; the event hashes must agree.
usage: tools/determinism.py [runs per library]"""
import json, subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import run
from checks import CHECKS, LIBS
N = int(sys.argv[1]) if len(sys.argv) > 1 else 400
only = sys.argv[2:] 
bad = 0
run.build(list(LIBS))
done = set()
for prop, c in CHECKS.items():
    for lib, _, wls in c["libs"]:
        if (lib, tuple(wls)) in done or (only and prop not in only): continue
        done.add((lib, tuple(wls)))
        res = []
        for workers in (1, 3, 8):
            ps = []
            for k in range(workers):
                a = [run.BUILD + "/simhost", "--lib", f"{run.BUILD}/libwl_{lib}.so", "--property", prop, "--seed", "7", "--start", str(k), "--stride", str(workers), "--count", str(N), "--hashes", "1", "--min-budget", "0", "--keep-going", "1", "--replay-dir", "/tmp", "--max-steps", str(LIBS[lib].get("maxsteps", 3000000))]
                for w in wls: a += ["--workload", w]
                env = dict(os.environ); env["PAD%d" % k] = "x" * (37 * k + workers)
                ps.append(subprocess.Popen(a, stdout=subprocess.PIPE, text=True, env=env))
            d = {}
            for p in ps:
                for l in p.communicate()[0].splitlines():
                    if l.startswith('{"run"'):
                        j = json.loads(l); d[j["run"]] = (j["status"], j["hash"], j["sched"], j["steps"])
            res.append(d)
        diff = [i for i in range(N) if not (res[0].get(i) == res[1].get(i) == res[2].get(i))]
        bad += len(diff)
        print(prop, lib, wls, "runs", len(res[0]), "differing", len(diff), diff[:5], "non-ok", sum(1 for v in res[0].values() if v[0] not in (1, 3)), flush=True)
sys.exit(1 if bad else 0)
