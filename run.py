#!/usr/bin/env python3
"""Driver of the simulation checks:  run.py check <property> | run.py build | run.py replay <file>

check: builds the simulator host and the workload libraries of one property from /repo's working tree, runs a seeded
batch of simulated executions on all cores, reproduces and minimises any violation, writes evidence/<property>.json."""
import hashlib, json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from checks import CHECKS, LIBS

DUNE = "/opt/dune/prefix"
MPIINC = "/usr/lib/x86_64-linux-gnu/openmpi/include"
DEFS = ("-DHAVE_CONFIG_H -DHAVE_GMP=1 -DHAVE_METIS=1 -DHAVE_MPI=1 -DHAVE_PARMETIS=1 -DHAVE_SUITESPARSE_AMD=1 "
        "-DHAVE_SUITESPARSE_BTF=1 -DHAVE_SUITESPARSE_CAMD=1 -DHAVE_SUITESPARSE_CCOLAMD=1 -DHAVE_SUITESPARSE_CHOLMOD=1 "
        "-DHAVE_SUITESPARSE_COLAMD=1 -DHAVE_SUITESPARSE_KLU=1 -DHAVE_SUITESPARSE_LDL=1 -DHAVE_SUITESPARSE_SPQR=1 "
        "-DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUPERLU=1 -DMETIS_API_VERSION=5 -DMPICH_SKIP_MPICXX=1 -DMPIPP_H "
        "-DMPI_NO_CPPBIND=1 -DOMPI_SKIP_MPICXX=1 -D_MPICC_H").split()
INCS = [f"-I{HERE}/sim/cfg", f"-I{REPO}", "-isystem", DUNE + "/include", "-isystem", "/usr/include/superlu",
        "-isystem", "/usr/include/suitesparse", "-isystem", MPIINC, "-isystem", MPIINC + "/openmpi"]
LINK = [DUNE + "/lib/libdunecommon.a", "-lparmetis", "-lmetis", "-lsuperlu", "-lumfpack", "-lldl", "-lspqr", "-lcholmod", "-larpack", "-lopenblas"]
HOSTSRC = ["core", "mpi_sim", "alloc", "threads", "files", "host"]
NCPU = min(8, os.cpu_count() or 1)


class BuildError(Exception):
    pass


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def deps_of(depfile):
    with open(depfile) as f:
        t = f.read().replace("\\\n", " ")
    names = t.split(":", 1)[1].split()
    return [n for n in names if n.startswith(REPO + "/") or n.startswith(HERE + "/")]


def compile_one(src, obj, cmd):
    """compile unless the object is newer than nothing: contents of every file read from /repo and /verif decide"""
    dep, key = obj + ".d", obj + ".key"
    try:
        if os.path.exists(obj) and open(key).read() == sha(deps_of(dep), " ".join(cmd)):
            return
    except (OSError, IndexError):
        pass
    full = cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(full), r.stdout[-6000:]))
    with open(key, "w") as f:
        f.write(sha(deps_of(dep), " ".join(cmd)))


def link(out, cmd):
    r = subprocess.run(cmd + ["-o", out + ".tmp"] , stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    os.rename(out + ".tmp", out)


def build(libs):
    os.makedirs(BUILD, exist_ok=True)
    jobs = []
    for h in HOSTSRC:
        jobs.append((f"{HERE}/sim/{h}.cc", f"{BUILD}/{h}.o",
                     ["g++", "-std=gnu++20", "-O2", "-g", "-fno-threadsafe-statics", "-isystem", MPIINC, "-DOMPI_SKIP_MPICXX"]))
    jobs.append((f"{HERE}/wl/support.cc", f"{BUILD}/support.o", ["clang++", "-std=gnu++20", "-O1", "-fPIC"]))
    for l in libs:
        cfg = LIBS[l]
        jobs.insert(0, (f"{HERE}/wl/{cfg.get('src', l)}.cc", f"{BUILD}/wl_{l}.o",
                     ["clang++", "-std=gnu++20", cfg.get("opt", "-O1"), "-g1", "-fPIC", "-Wno-deprecated-declarations"] + DEFS + INCS + cfg.get("flags", [])))
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, *j) for j in jobs]:
            f.result()
        ls = [ex.submit(link, f"{BUILD}/simhost", ["g++", "-rdynamic"] + [f"{BUILD}/{h}.o" for h in HOSTSRC] + ["-lpthread", "-ldl"])]
        for l in libs:
            ls.append(ex.submit(link, f"{BUILD}/libwl_{l}.so", ["clang++", "-shared", "-Wl,-Bsymbolic", f"{BUILD}/wl_{l}.o", f"{BUILD}/support.o"] + LINK))
        for f in ls:
            f.result()


def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) replay=(\S+) workload=(\S+) kind=(\S+) match=/(.*?)/ (.*)", line.strip())
                if m:
                    out.append(dict(property=m[1], replay=m[2], workload=m[3], kind=m[4], match=m[5], text=m[6]))
    except OSError:
        pass
    return out


def host(args, timeout):
    return subprocess.run([f"{BUILD}/simhost"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def replay(path, lib, copies=8, trace=False, runtimeout="40"):
    r = host(["--lib", f"{BUILD}/libwl_{lib}.so", "--replay", path, "--run-timeout", runtimeout, "--copies", str(copies), "--trace", "1" if trace else "0",
              "--max-steps", str(LIBS[lib].get("maxsteps", 3000000))], 200)
    line = r.stdout.split("\n", 1)[0]
    return json.loads(line) if line.startswith("{") else None, r.stdout


def lib_of(prop, workload):
    for lib, _, wls in CHECKS[prop]["libs"]:
        if workload in wls:
            return lib
    raise KeyError(workload)


def check(prop):
    t0 = time.time()
    cfg = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        build([l for l, _, _ in cfg["libs"]])
    except BuildError as e:
        print("BUILD ERROR", e)
        return 3
    tbuild = time.time() - t0
    repdir = os.path.join(BUILD, "replays")
    outdir = os.path.join(BUILD, "out-" + prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(repdir, exist_ok=True)
    budget = float(os.environ.get("VERIF_TIME", cfg.get(tier, 30 if tier == "quick" else 840)))
    known = [k for k in known_findings() if k["property"] == prop]
    known_hit = set()
    # listed findings are re-executed from their committed replay files
    for k in known:
        try:
            res, _ = replay(os.path.join(HERE, k["replay"]), lib_of(prop, k["workload"]))
            if res and res["kind"] == k["kind"] and re.search(k["match"], res["msg"]):
                known_hit.add(k["replay"])
        except (subprocess.TimeoutExpired, KeyError):
            pass
    total = sum(w for _, w, _ in cfg["libs"])
    procs = []
    used = 0
    for li, (lib, w, wls) in enumerate(cfg["libs"]):
        nw = max(1, round(NCPU * w / total)) if li + 1 < len(cfg["libs"]) else max(1, NCPU - used)
        used += nw
        for k in range(nw):
            out = f"{outdir}/{lib}-{k}.jsonl"
            args = [f"{BUILD}/simhost", "--lib", f"{BUILD}/libwl_{lib}.so", "--property", prop, "--seed", str(seed), "--start", str(k), "--stride", str(nw),
                    "--count", str(cfg.get("count_" + tier, 10**9)), "--time", str(budget), "--out", out, "--replay-dir", repdir, "--min-budget", "25" if tier == "quick" else "90",
                    "--selfcheck", "97", "--run-timeout", str(LIBS[lib].get("runtimeout", 40)), "--max-steps", str(LIBS[lib].get("maxsteps", 3000000)),
                    "--keep-going", "1" if known else "0"]
            for x in wls:
                args += ["--workload", x]
            procs.append((lib, out, subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))))
    deadline = time.time() + budget + 160

    def unlisted(v):
        for k in known:
            if v["workload"] == k["workload"] and v["kind"] == k["kind"] and re.search(k["match"], v["msg"]):
                known_hit.add(k["replay"])
                return False
        return True

    def violations():
        vs = []
        for lib, out, _ in procs:
            try:
                for line in open(out):
                    if line.startswith('{"violation"') and line.endswith("}\n"):
                        v = json.loads(line)
                        v["lib"] = lib
                        if unlisted(v):
                            vs.append(v)
            except OSError:
                pass
        return vs

    stopped = False
    while any(p.poll() is None for _, _, p in procs):
        time.sleep(0.2)
        if (not stopped and any(v["deterministic"] for v in violations())) or time.time() > deadline:
            stopped = True
            time.sleep(0.5)
            for _, _, p in procs:
                if p.poll() is None:
                    p.kill()
    for _, _, p in procs:
        p.wait()
    vs = violations()
    summ = []
    bad_exit = []
    for lib, out, p in procs:
        got = None
        try:
            for line in open(out):
                if line.startswith('{"summary"'):
                    got = json.loads(line)
        except OSError:
            pass
        if got:
            summ.append((lib, got))
        elif not stopped:
            bad_exit.append((lib, p.returncode, open(out + ".err").read()[-2000:]))
    real = []
    nondet = [v for v in vs if not v["deterministic"]]
    for v in sorted((v for v in vs if v["deterministic"]), key=lambda v: v["run"]):
        # gate: a fresh process must reproduce the minimised replay file exactly
        try:
            ok = True
            for _ in range(2):
                res, _txt = replay(v["replay"], v["lib"])
                exp = {l.split()[0]: l.split()[1] for l in open(v["replay"]) if l.startswith(("expect ", "hash "))}
                ok = ok and bool(res) and res["kind"] == exp["expect"] and (res["kind"] == "hang" or res["hash"] == exp["hash"])
            (real if ok else nondet).append(v)
        except subprocess.TimeoutExpired:
            nondet.append(v)
    ev = evidence(prop, cfg, tier, seed, summ, real, t0, tbuild, budget)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k["replay"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for v in real[:3]:
        print("%s (workload %s, run seed %d, %d -> %d non-default decisions, %d minimisation runs): %s" % (v["kind"], v["workload"], v["seed"], v["decisions_before"], v["decisions_after"], v["minimise_runs"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("%s %s: %d simulated runs, %d distinct, %d violations, %.1f s (build %.1f s)" % (prop, tier, ev["coverage"].get("evaluations", 0), ev["coverage"].get("distinct_nontrivial", 0), len(real), time.time() - t0, tbuild))
    if real:
        return 1
    if nondet:
        print("ERROR: a run failed but did not reproduce: %s" % nondet[0]["msg"][:500])
        return 4
    if bad_exit:
        print("ERROR: a worker ended without a summary:", bad_exit[0])
        return 5
    if any(s["mismatches"] for _, s in summ):
        print("ERROR: a run was not repeatable (event hashes differ)")
        return 6
    if ev["coverage"]["evaluations"] == 0:
        print("ERROR: nothing was evaluated")
        return 7
    return 0


def evidence(prop, cfg, tier, seed, summ, real, t0, tbuild, budget):
    tot = lambda k: sum(s[k] for _, s in summ)
    def merge(k):
        m = {}
        for _, s in summ:
            for n, c in s[k].items():
                m[n] = m.get(n, 0) + c
        return dict(sorted(m.items()))
    sched, full = set(), set()
    for lib, s in summ:
        sched.update((lib, x) for x in s["sched"])
        full.update((lib, x) for x in s["full"])
    runs = tot("runs") - tot("skipped")
    samples = [x for _, s in summ for x in s["samples"]][:5]
    wall = time.time() - t0
    simsec = max([s["wall"] for _, s in summ] or [1e-9])
    return dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(real), assumptions=cfg.get("assumptions", []),
                coverage=dict(
                    evaluations=runs, distinct_nontrivial=len(full),
                    rule=cfg.get("rule", "one evaluation = one simulated execution (seed -> data, parameters, schedule, faults). Non-trivial: the simulator took at least one decision other than the default (a preemption, out-of-order delivery, fault) or a fault fired; distinct: different hash of the complete event log including all observed values."),
                    samples=samples or ["no run completed before a violation stopped the batch"],
                    distinct_interleavings=len(sched), interleaving_measure="hash over the sequence of scheduling, delivery and completion decisions taken",
                    runs_per_hour=int(runs / max(simsec, 1e-9) * 3600), seeds=runs, skipped=merge("skips"), runs_by_workload=merge("workloads"), runs_with_nondefault_decisions=tot("nontrivial_runs"),
                    scheduler_steps=tot("steps"), context_switches=tot("switches"), simulated_seconds=round(tot("simns") * 1e-9, 3),
                    faults_injected=merge("faults"), probes=merge("probes"),
                    determinism_rechecks=tot("rechecked"), determinism_mismatches=tot("mismatches"),
                    real_components=cfg.get("real", []), stub_components=cfg.get("stub", []),
                    build_seconds=round(tbuild, 2)))


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "build":
        libs = sys.argv[2:] or list(LIBS)
        try:
            build(libs)
        except BuildError as e:
            print("BUILD ERROR", e)
            return 3
        return 0
    if sys.argv[1] == "check":
        return check(sys.argv[2])
    if sys.argv[1] == "replay":
        kv = {l.split()[0]: l.split()[1] for l in open(sys.argv[2]) if l.strip() and not l.startswith("#")}
        lib = lib_of(kv["property"], kv["workload"])
        build([lib])
        res, txt = replay(sys.argv[2], lib, trace=True)
        print(txt)
        return 1 if res and res["status"] in (2, 4, 5) else 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
