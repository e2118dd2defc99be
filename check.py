#!/usr/bin/env python3
"""Deterministic-simulation checks for cler.

  check.py C07                 quick check (VERIF_TIER=thorough for the deep one, VERIF_SEED for the seed)
  check.py C07 --replay FILE   replay one recorded violation with its event trace
  check.py --build             build everything

Exit 0: held on everything explored.  Exit 1: 'VIOLATION property=<id> replay=<path>'.  Exit 2: check error.
"""
import sys, os, subprocess, json, time, hashlib, re, struct, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CLER_REPO", "/repo")
BUILD = os.environ.get("CLER_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from checks import PROPS, HARNESS, COMMON_ASSUMPTIONS

NPROC = max(2, min(8, os.cpu_count() or 8))
RTFLAGS = "-std=c++17 -O2 -g1 -fPIC -fvisibility=hidden -D_GNU_SOURCE -Wno-ignored-attributes".split()
HFLAGS = ("-std=c++17 -fsanitize=thread -femulated-tls -O1 -g1 -fno-omit-frame-pointer "
          "-D_GNU_SOURCE -Wno-everything").split()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def compile_many(jobs):
    with ThreadPoolExecutor(NPROC) as ex:
        for cmd, r in ex.map(lambda c: (c, run(c)), jobs):
            if r.returncode:
                sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), "\n".join([l for l in r.stderr.split("\n") if "error" in l][:20]) + r.stderr[:1500]))
                sys.exit(2)


def build_runtime():
    src = [os.path.join(HERE, "sim", f) for f in ("core.cpp", "libc.cpp", "io.cpp")]
    tag = digest(glob.glob(os.path.join(HERE, "sim", "*.?pp")), " ".join(RTFLAGS))
    d = os.path.join(BUILD, "rt-" + tag)
    so = os.path.join(d, "libclersim.so")
    if os.path.exists(so):
        return so
    os.makedirs(d, exist_ok=True)
    tmp = "%s/%d" % (d, os.getpid())
    objs = ["%s-%s.o" % (tmp, os.path.basename(s)) for s in src]
    compile_many([["clang++"] + RTFLAGS + ["-c", s, "-o", o] for s, o in zip(src, objs)])
    r = run(["clang++", "-shared", "-Wl,-Bsymbolic", "-o", tmp + ".so"] + objs + ["-ldl"])
    if r.returncode:
        sys.stderr.write(r.stderr); sys.exit(2)
    os.rename(tmp + ".so", so)
    for o in objs:
        os.unlink(o)
    return so


def subst(x):
    return x.replace("$REPO", REPO).replace("$HERE", HERE)


def harness_jobs(name, d):
    h = HARNESS[name]
    inc = [subst(x) for x in h.get("inc", [])]
    base = ["-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "harness")] + ["-I" + i for i in inc] + \
           ["-I" + REPO, "-I" + os.path.join(REPO, "include")]
    jobs, objs = [], []
    for s in [os.path.join(HERE, "harness", name + ".cpp")] + [subst(x) for x in h.get("src", [])]:
        fl = [subst(f) for f in h.get("flags", [])]
        if "parts" in h and os.path.basename(s) == name + ".cpp":      # one source compiled in parallel pieces
            for k in range(h["parts"]):
                o = os.path.join(d, "%s-%d.o" % (name, k))
                jobs.append(["clang++"] + HFLAGS + base + fl + ["-DPART=%d" % k, "-c", s, "-o", o]); objs.append(o)
            continue
        o = os.path.join(d, name + "-" + os.path.basename(s) + ".o")
        if s.endswith(".c"):
            cf = [f for f in HFLAGS if not f.startswith("-std")]
            jobs.append(["clang", "-std=gnu99"] + cf + base + fl + ["-c", s, "-o", o])
        else:
            jobs.append(["clang++"] + HFLAGS + base + fl + ["-c", s, "-o", o])
        objs.append(o)
    return jobs, objs


def build_js(name, d):
    js = os.path.join(HERE, "harness", "js")
    r = run(["node", os.path.join(js, "build.js"), subst(HARNESS[name]["js"]), d, name])
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (name, r.stderr[:1500])); sys.exit(2)
    with open(os.path.join(d, name), "w") as f:
        f.write('#!/bin/sh\nexec node "%s" --out "%s" "$@"\n' % (os.path.join(js, name + ".js"), d))
    os.chmod(os.path.join(d, name), 0o755)


def build_harness(names):
    """Always rebuilt from the current working tree of /repo."""
    so = build_runtime()
    d = os.path.join(BUILD, "h-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    jobs, link = [], []
    for n in names:
        if "js" in HARNESS[n]:
            build_js(n, d); continue
        j, objs = harness_jobs(n, d)
        jobs += j
        exe = os.path.join(d, n)
        link.append(["clang++", "-rdynamic", "-o", exe] + objs + [so] + HARNESS[n].get("libs", []) + ["-Wl,-rpath," + os.path.dirname(so), "-lm", "-ldl"])
    compile_many(jobs)
    compile_many(link)
    return d


def cleanup(d):
    for f in glob.glob(os.path.join(d, "*")):
        os.unlink(f)
    os.rmdir(d)


def sim_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LD_LIBRARY_PATH", "SIM_STDERR")}
    e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e


def batch(exe, seed, first, stride, count, tmax, only, hashes, keep=1):
    cmd = [exe, "--seed", str(seed), "--first", str(first), "--stride", str(stride), "--count", str(count),
           "--time", str(tmax), "--hashes", hashes, "--keep", str(keep), "--only", ",".join(only)]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=sim_env())


def single(exe, seed, runno, scen, record=False, verbose=False):
    cmd = [exe, "--seed", str(seed), "--run", str(runno), "--scenario", scen]
    if record: cmd.append("--record")
    if verbose: cmd.append("--verbose")
    return run(cmd, env=sim_env(), timeout=200).stdout


def write_replay(path, head, deltas):
    with open(path, "w") as f:
        for k, v in head.items():
            f.write("%s %s\n" % (k, v))
        for x in deltas:
            f.write("d %d %d %d\n" % x)


def replay(exe, path, verbose=False):
    r = run([exe, "--replay", path] + (["--verbose"] if verbose else []), env=sim_env(), timeout=200)
    try:
        return json.loads(r.stdout.split("\n", 1)[0]), r.stdout
    except Exception:
        return {"status": 3, "kind": "", "hash": "", "msg": r.stdout[:300]}, r.stdout


def symbolise(exe, msg):
    def sub(m):
        if os.path.basename(exe) != m.group(1):
            return m.group(0)
        r = run(["addr2line", "-Cfpe", exe, m.group(2)])
        t = r.stdout.strip().split("\n")[0]
        return "[" + re.sub(r"\(discriminator.*\)", "", t)[-160:].strip() + "]"
    return re.sub(r"\[([\w.]+)\+(0x[0-9a-f]+)\]", sub, msg)


def minimise(exe, head, deltas, kind, tdir, budget=75.0):
    """ddmin over the recorded non-default choices; every candidate is replayed in a fresh process."""
    t0 = time.time()
    tried = [0]

    def ok(ds):
        tried[0] += 1
        p = os.path.join(tdir, "cand-%d" % tried[0])
        write_replay(p, head, ds)
        try:
            r, _ = replay(exe, p)
        except subprocess.TimeoutExpired:
            r = {"status": 3, "kind": ""}
        os.unlink(p)
        return r["status"] == 2 and r["kind"] == kind

    def first_ok(cands):
        with ThreadPoolExecutor(NPROC) as ex:
            for i in range(0, len(cands), NPROC):
                if time.time() - t0 > budget: return None
                part = cands[i:i + NPROC]
                for c, r in zip(part, list(ex.map(ok, part))):
                    if r: return c
        return None

    cur = deltas
    # whole streams first
    for s in sorted({x[0] for x in cur}, reverse=True):
        c = [x for x in cur if x[0] != s]
        if len(c) < len(cur) and ok(c): cur = c
    n = 2
    while len(cur) >= 1 and time.time() - t0 < budget:
        size = max(1, len(cur) // n)
        cands = [cur[:i] + cur[i + size:] for i in range(0, len(cur), size)]
        c = first_ok(cands)
        if c is not None:
            cur = c; n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(cur), n * 2)
    # smaller values
    for i in range(len(cur)):
        if time.time() - t0 > budget: break
        s, ix, v = cur[i]
        for nv in (1, v // 2):
            if 0 < nv < v:
                c = cur[:i] + [(s, ix, nv)] + cur[i + 1:]
                if ok(c): cur = c; break
    return cur, tried[0]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) kind=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


STREAMS = ["configuration", "workload", "schedule", "preemption", "memory order", "timing"]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        os.makedirs(BUILD, exist_ok=True)
        d = build_harness(sorted(HARNESS)); cleanup(d)
        return 0
    prop = a[0]
    P = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a: tier = "thorough"
    if "--quick" in a: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    harnesses = [h for h, _ in P["use"]]
    d = build_harness(harnesses)
    try:
        if "--replay" in a:
            return do_replay(prop, d, a[a.index("--replay") + 1])
        return do_check(prop, P, tier, seed, d, t0)
    finally:
        cleanup(d)


def do_replay(prop, d, path):
    head = {}
    for l in open(path):
        k = l.strip().split(" ", 1)
        if len(k) == 2 and k[0] in ("harness", "kind", "scenario"): head[k[0]] = k[1]
    exe = os.path.join(d, head["harness"])
    r, out = replay(exe, path, verbose=True)
    print(symbolise(exe, out))
    if r["status"] == 2:
        print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    return 0 if r["status"] == 1 else 2


def do_check(prop, P, tier, seed, d, t0):
    tb = time.time() - t0
    quick = tier == "quick"
    tot = {"runs": 0, "nontrivial": 0, "steps": 0, "switches": 0, "accesses": 0, "sim_ns": 0, "det_checked": 0, "det_bad": 0, "max_threads": 0}
    faults, probes, scen, samples, viols, errors = {}, {}, {}, [], [], []
    distinct = set(); alld = set()
    wall_sim = 0.0
    known = known_findings(prop)
    known_seen = {}
    total_w = sum(P.get("time", {}).get(h, 1.0) for h, _ in P["use"])
    # Scenarios with a known finding run in a batch of their own that goes on after a violation, so
    # that they neither stop the search of the others nor hide a different violation.
    with_known = {k[0] for k in known}
    groups = []
    for h, only in P["use"]:
        w = P.get("time", {}).get(h, 1.0) / total_w
        a, b = [s for s in only if s not in with_known], [s for s in only if s in with_known]
        if a: groups.append((h, a, w * (0.8 if b else 1.0), 1))
        if b: groups.append((h, b, w * (0.2 if a else 1.0), 60))
    for h, only, share, keep in groups:
        exe = os.path.join(d, h)
        tmax = (P.get("quick_s", 20) if quick else P.get("thorough_s", 600)) * share
        count = P.get("quick_runs", 1 << 40) if quick else (1 << 40)
        ts = time.time()
        procs = []
        for w in range(NPROC):
            hf = os.path.join(d, "hash-%s-%d" % (h, w))
            procs.append((batch(exe, seed, w, NPROC, max(1, count // NPROC), tmax, only, hf, keep), hf))
        for p, hf in procs:
            out, _ = p.communicate()
            ended = False
            for l in out.splitlines():
                try: j = json.loads(l)
                except ValueError: errors.append("bad output: " + l[:200]); continue
                if "stats" in j:
                    ended = True
                    for k in tot:
                        if k == "max_threads": tot[k] = max(tot[k], j[k])
                        else: tot[k] += j[k]
                    for k, v in j["faults"].items():
                        f = faults.setdefault(k, [0, 0]); f[0] += v[0]; f[1] += v[1]
                    for k, v in j["probes"].items(): probes[k] = probes.get(k, 0) + v
                    for k, v in j["scenarios"].items(): scen[k] = scen.get(k, 0) + v
                elif "nondeterministic_run" in j:
                    errors.append("run %d is not deterministic" % j["nondeterministic_run"])
                elif j.get("status") == 2:
                    j["harness"] = h; viols.append(j)
                elif j.get("status") == 3:
                    errors.append("harness error: " + j.get("msg", ""))
                elif "run" in j and len(samples) < 12:
                    samples.append({"harness": h, "scenario": j["scenario"], "run": j["run"], "seed": seed, "steps": j["steps"], "context_switches": j["switches"],
                                    "sim_ms": round(j["sim_ns"] / 1e6, 4), "event_hash": j["hash"], "what": j["sample"]})
            if not ended: errors.append("worker of %s ended without statistics (status %s)" % (h, p.returncode))
            if os.path.exists(hf):
                b = open(hf, "rb").read()
                for i in range(0, len(b) - 15, 16):
                    hh, nt = struct.unpack_from("<QQ", b, i)
                    alld.add(hh)
                    if nt: distinct.add(hh)
                os.unlink(hf)
        wall_sim += time.time() - ts

    rc = 0
    vio_out = []
    if viols:
        viols.sort(key=lambda j: (j["harness"], j["steps"], j["run"]))
        reported = set()
        for j in viols:
            kk = (j["harness"], j["scenario"], j["kind"])
            if kk in reported: continue
            msg = symbolise(os.path.join(d, j["harness"]), j["msg"])
            kf = next((k for k in known if k[0] == j["scenario"] and k[1] == j["kind"] and re.search(k[2], msg)), None)
            if kf:
                known_seen[kf] = 1; continue
            reported.add(kk)
            if len(vio_out) >= 2: continue
            r = report(prop, d, seed, j, errors)
            if r: vio_out.append(r)
    for kf in known_seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[3]))
    det_fail = tot["det_bad"] > 0
    per_h = 3600.0 / max(wall_sim, 1e-6)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "violations": len(vio_out),
        "assumptions": COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(distinct),
            "rule": "One evaluation is one simulated run: a fresh process (C27: a fresh instance of the extension) in which every thread of the real code runs as a fiber and one seed decides configuration, workload, interleaving, clocks and faults. Two runs are distinct when their 64-bit hash over all scheduling, memory-order, timing, workload and fault decisions in order differs. Non-trivial: " + P["nontrivial"],
            "samples": samples,
            "runs_per_hour": int(tot["runs"] * per_h), "seeds_per_hour": int(tot["runs"] * per_h),
            "distinct_interleavings_all_runs": len(alld),
            "simulated_time_s": round(tot["sim_ns"] / 1e9, 4),
            "scheduling_steps": tot["steps"], "context_switches": tot["switches"], "race_checked_accesses": tot["accesses"], "max_simulated_threads": tot["max_threads"],
            "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(faults.items())},
            "rare_condition_probes": dict(sorted(probes.items())),
            "runs_per_scenario": dict(sorted(scen.items())),
            "determinism": {"runs_repeated": tot["det_checked"], "hash_mismatches": tot["det_bad"], "worker_processes": NPROC},
            "real_components": P["real"], "stub_components": P["stub"],
            "build_s": round(tb, 2),
        },
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct non-trivial, %.1f simulated s, %d scheduling steps, %d faults, %.1f s wall" %
          (prop, tier, tot["runs"], len(distinct), tot["sim_ns"] / 1e9, tot["steps"], sum(v[0] for v in faults.values()), time.time() - t0))
    for v in vio_out:
        print(v["text"]); print("VIOLATION property=%s replay=%s" % (prop, v["path"])); rc = 1
    if rc == 0 and (errors or det_fail):
        for e in errors[:10]: print("CHECK-ERROR: " + e)
        rc = 2
    if rc == 0 and tot["runs"] == 0:
        print("CHECK-ERROR: nothing was run"); rc = 2
    return rc


def report(prop, d, seed, j, errors):
    exe = os.path.join(d, j["harness"])
    out = single(exe, seed, j["run"], j["scenario"], record=True)
    lines = out.splitlines()
    r = json.loads(lines[0])
    hang = j["kind"] == "hang"
    if r["status"] != 2 or r["kind"] != j["kind"] or (r["hash"] != j["hash"] and not hang):
        errors.append("violation of run %d did not reproduce (%s/%s, hash %s/%s)" % (j["run"], j["kind"], r["kind"], j["hash"], r["hash"])); return None
    deltas = [tuple(map(int, l.split()[1:])) for l in lines[1:] if l.startswith("d ")]
    head = {"property": prop, "harness": j["harness"], "scenario": j["scenario"], "seed": seed, "run": j["run"], "kind": j["kind"]}
    tdir = os.path.join(d, "min"); os.makedirs(tdir, exist_ok=True)
    full = os.path.join(tdir, "full"); write_replay(full, head, deltas)
    r0, _ = replay(exe, full); os.unlink(full)
    tried = 0
    if r0["status"] == 2 and r0["kind"] == j["kind"]:
        cur, tried = (deltas, 0) if hang else minimise(exe, head, deltas, j["kind"], tdir)
    else:
        errors.append("recorded choices of run %d do not reproduce %s" % (j["run"], j["kind"])); os.rmdir(tdir); return None
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%d-%d.replay" % (prop, j["scenario"], seed, j["run"]))
    write_replay(path, head, cur)
    a, o1 = replay(exe, path); b, o2 = replay(exe, path, verbose=True)
    os.rmdir(tdir)
    if a["status"] != 2 or b["status"] != 2 or (a["hash"] != b["hash"] and not hang):
        errors.append("minimised replay of run %d (%s, %s) is not stable: %s / %s" % (j["run"], j["scenario"], j["msg"][:300], a, b)); return None
    msg = symbolise(exe, b["msg"])
    with open(path, "a") as f:
        f.write("# violation: %s: %s\n# %d recorded choices minimised to %d with %d replays\n# event trace:\n" % (b["kind"], msg.replace("\n", " "), len(deltas), len(cur), tried))
        for l in symbolise(exe, o2).splitlines()[1:][-400:]:
            f.write("#  " + l + "\n")
    return {"path": path, "text": "%s in scenario %s (seed %d, run %d; %d choices minimised to %d): %s" % (b["kind"], j["scenario"], seed, j["run"], len(deltas), len(cur), msg)}


if __name__ == "__main__":
    sys.exit(main())
