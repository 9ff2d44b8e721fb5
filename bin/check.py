#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py run C01 [--tier quick|thorough] [--runs N] [--wall S] [--seed S]
  check.py replay FILE            re-execute a replay file (exit 1 if it still violates)
  check.py trace FILE             the same with the event log
  check.py determinism [C01 ...]  same seeds, different worker counts, twice: diff the hashes
  check.py build [C01 ...]        compile only
"""
import argparse, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import PROPS  # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))

import sysconfig  # noqa: E402
PYINC = ["-I", sysconfig.get_paths()["include"]]
PYLIB = ["-L" + (sysconfig.get_config_var("LIBDIR") or "/usr/lib"), "-lpython" + sysconfig.get_config_var("LDVERSION")]
COMMON = ["-std=c++17", "-O1", "-g1", "-UNDEBUG", "-DPP_ENABLE_ASSERT", "-D_GLIBCXX_ASSERTIONS", "-w",
          "-I", os.path.join(REPO, "planner/src"), "-I", os.path.join(VERIF, "sim"),
          "-include", os.path.join(VERIF, "sim/seam.h")]
WRAPS = ["-Wl,--wrap=" + n for n in (
    "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once "
    "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort memcpy memmove memset sched_yield pthread_rwlock_tryrdlock pthread_rwlock_trywrlock "
    "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l _ZNSo5flushEv").split()]
VARIANTS = {
    # sequential histories: ASan + one step per basic block of the code under test
    "seq": dict(sut=["-fsanitize=address", "-fsanitize-coverage=trace-pc"], har=["-fsanitize=address"],
                sim=["-DSIM_ALLOC", "-DSIM_COV", "-DSIM_ASAN"], link=["-fsanitize=address"], extra=[]),
    # same, profiling compiled in
    "prof": dict(sut=["-DPP_ENABLE_PROFILING", "-fsanitize=address", "-fsanitize-coverage=trace-pc"],
                 har=["-DPP_ENABLE_PROFILING", "-fsanitize=address"],
                 sim=["-DSIM_ALLOC", "-DSIM_COV", "-DSIM_ASAN"], link=["-fsanitize=address", "-ldl"], extra=["disk.cpp"]),
    "disk": dict(sut=["-fsanitize=address", "-fsanitize-coverage=trace-pc"], har=["-fsanitize=address"],
                 sim=["-DSIM_ALLOC", "-DSIM_COV", "-DSIM_ASAN"], link=["-fsanitize=address", "-ldl"], extra=["disk.cpp"]),
    # threads: every memory access of the code under test is a scheduling point
    "thr": dict(sut=["-fsanitize=thread"], har=[], sim=["-DSIM_THREADS"], link=["-lpthread", "-ldl"] + WRAPS, extra=["simthreads.cpp"]),
    "thrprof": dict(sut=["-DPP_ENABLE_PROFILING", "-fsanitize=thread"], har=["-DPP_ENABLE_PROFILING"],
                    sim=["-DSIM_THREADS"], link=["-lpthread", "-ldl"] + WRAPS, extra=["simthreads.cpp", "disk.cpp"]),
}


def lib_sources(variant):
    out = []
    for d, _, files in os.walk(os.path.join(REPO, "planner/src")):
        for f in files:
            if not f.endswith(".cpp"):
                continue
            rel = os.path.relpath(os.path.join(d, f), os.path.join(REPO, "planner/src"))
            if rel == "core/log.cpp":
                continue
            if rel == "debug/profiler.cpp" and "prof" not in variant:
                continue
            out.append(rel)
    return sorted(out)


def header_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "planner/src"), os.path.join(VERIF, "sim")):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".h"):
                    h.update(f.encode())
                    with open(os.path.join(d, f), "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(src, flags, hd):
    with open(src, "rb") as f:
        body = f.read()
    key = hashlib.sha256(("\0".join(flags) + "\0" + src + "\0" + hd).encode() + body).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
        os.rename(tmp, obj)
    return obj


def build(pid):
    """Build from the sources the property needs; from all of them if that does not link (moved code)."""
    prop = PROPS[pid]
    if prop.get("sources"):
        try:
            return build_from(pid, prop["sources"])
        except BuildError as e:
            if "link failed" not in str(e):
                raise
    return build_from(pid, None)


def build_from(pid, wanted):
    """Compile the simulator, the property module and the repository's sources; return the binary."""
    prop = PROPS[pid]
    var = VARIANTS[prop["variant"]]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hd = header_digest()
    jobs = []
    for rel in lib_sources(prop["variant"]):
        if wanted and not any(re.match(w, rel) for w in wanted):
            continue
        jobs.append((os.path.join(REPO, "planner/src", rel), COMMON + var["sut"]))
    nsut = len(jobs)
    for f in prop.get("bindings", []):
        jobs.append((os.path.join(REPO, f), COMMON + var["sut"] + PYINC + ["-fvisibility=hidden", "-fno-sanitize-coverage=trace-pc"]))
        nsut += 1
    for f in prop["modules"]:
        flags = COMMON + (var["sut"] if f.endswith("_sut.cpp") else var["har"]) + (PYINC if prop.get("bindings") else [])
        jobs.append((os.path.join(VERIF, "sim/props", f), flags))
    for f in ["sim.cpp"] + var["extra"]:
        jobs.append((os.path.join(VERIF, "sim", f), COMMON + var["har"] + var["sim"]))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], hd), jobs))
    key = hashlib.sha256("\0".join(sorted(objs)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s" % (pid, key))
    if not os.path.exists(exe):
        for old in os.listdir(BUILD):
            if old.startswith(pid + "-"):
                os.unlink(os.path.join(BUILD, old))
        cmd = ["g++", "-o", exe + ".tmp"] + objs + ["-rdynamic"] + var["link"] + ["-lflann", "-llz4"] + (PYLIB if prop.get("bindings") else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("link failed\n%s" % r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
    return exe, nsut


def scratch():
    return tempfile.mkdtemp(prefix="simrun-")


def run_batch(exe, seed, total, wall, workers, hashes=False):
    tmp = scratch()
    try:
        procs = []
        for w in range(workers):
            wd = os.path.join(tmp, "w%d" % w)
            os.mkdir(wd)
            cmd = [exe, "run", "--seed", str(seed), "--from", str(w), "--stride", str(workers), "--total", str(total),
                   "--wall", str(wall), "--dump", os.path.join(tmp, "dump%d" % w)]
            if hashes:
                cmd += ["--hashes", "1"]
            out = open(os.path.join(tmp, "out%d" % w), "w")
            procs.append((subprocess.Popen(cmd, cwd=wd, stdout=out, stderr=subprocess.DEVNULL), out))
        for p, out in procs:
            p.wait()
            out.close()
        bad, stats, hs = [], [], {}
        states, outcomes, cov = set(), set(), bytearray(8192)
        for w, (p, _) in enumerate(procs):
            with open(os.path.join(tmp, "out%d" % w)) as f:
                text = f.read()
            got = False
            for line in text.splitlines():
                if line.startswith("BAD "):
                    bad.append(json.loads(line[4:]))
                elif line.startswith("STATS "):
                    stats.append(json.loads(line[6:]))
                    got = True
                elif line.startswith("H "):
                    _, i, h = line.split()
                    hs[int(i)] = h
            if not got:
                raise RuntimeError("worker %d gave no result (exit %s): %s" % (w, p.returncode, text[-500:]))
            dump = os.path.join(tmp, "dump%d" % w)
            if os.path.exists(dump):
                with open(dump, "rb") as f:
                    d = f.read()
                n = struct.unpack_from("<Q", d, 0)[0]
                states.update(struct.unpack_from("<%dQ" % n, d, 8))
                o = 8 + 8 * n
                n = struct.unpack_from("<Q", d, o)[0]
                outcomes.update(struct.unpack_from("<%dQ" % n, d, o + 8))
                c = d[o + 8 + 8 * n:]
                for i in range(min(len(c), 8192)):
                    cov[i] |= c[i]
        bad.sort(key=lambda b: b["index"])
        return bad, stats, hs, states, outcomes, sum(bin(x).count("1") for x in cov)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def exec_plan(exe, text, mode="exec"):
    tmp = scratch()
    try:
        pf = os.path.join(tmp, "plan")
        with open(pf, "w") as f:
            f.write(text)
        wd = os.path.join(tmp, "w")
        os.mkdir(wd)
        r = subprocess.run([exe, mode, "--plan", pf], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        lines = r.stdout.strip().splitlines()
        if not lines:
            return None, ""
        return json.loads(lines[-1]), "\n".join(lines[:-1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ minimise
def plan_lines(text):
    return [l for l in text.splitlines() if l.strip() and not l.startswith("#")]


def minimise(exe, text, cls, budget):
    """Greedy delta debugging over operations, faults, schedule entries and numbers."""
    t0 = time.time()

    def fails(cands):
        """index of the first candidate that still shows the violation class"""
        if not cands:
            return None
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda c: exec_plan(exe, "\n".join(c) + "\n")[0], cands))
        for i, r in enumerate(res):
            if r and r["status"] == 2 and r["cls"] == cls:
                return i
        return None

    cur = plan_lines(text)

    def left():
        return time.time() - t0 < budget

    # 1. drop chunks of operations
    n = 2
    while left():
        ops = [i for i, l in enumerate(cur) if l.startswith("op ")]
        if len(ops) <= 1:
            break
        size = max(1, len(ops) // n)
        cands = []
        for s in range(0, len(ops), size):
            drop = set(ops[s:s + size])
            cands.append([l for i, l in enumerate(cur) if i not in drop])
        k = None
        for b in range(0, len(cands), NPROC):
            k = fails(cands[b:b + NPROC])
            if k is not None:
                k += b
                break
            if not left():
                break
        if k is not None:
            cur = cands[k]
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    # 2. drop faults and list entries (pairs/triples of rngx, preemptions, obstacles...)
    progress = True
    while progress and left():
        progress = False
        for i in range(len(cur)):
            toks = cur[i].split(" ")
            cands = []
            if cur[i].startswith("op "):
                for j in range(2, len(toks)):
                    if toks[j].startswith("!"):
                        cands.append(cur[:i] + [" ".join(toks[:j] + toks[j + 1:])] + cur[i + 1:])
            elif cur[i].startswith("cfg "):
                m = re.match(r"cfg (\w*?)x(\d)?$", " ".join(toks[:2]))
                group = {"rngx": 2, "preempt": 2}.get(toks[1])
                if group:
                    vals = toks[2:]
                    cnt = len(vals) // group
                    step = max(1, cnt // 8)
                    while True:
                        for s in range(0, cnt, step):
                            cands.append(cur[:i] + [" ".join(toks[:2] + vals[:s * group] + vals[(s + step) * group:])] + cur[i + 1:])
                        if step == 1 or len(cands) > 64:
                            break
                        step = max(1, step // 2)
            for b in range(0, len(cands), NPROC):
                if not left():
                    break
                k = fails(cands[b:b + NPROC])
                if k is not None:
                    cur = cands[b + k]
                    progress = True
                    break
            if progress:
                break
    # 3. simplify numbers
    for i in range(len(cur)):
        if not left():
            break
        if not (cur[i].startswith("op ") or cur[i].startswith("cfg ")):
            continue
        toks = cur[i].split(" ")
        cands = []
        for j in range(2, len(toks)):
            tk = toks[j]
            if tk.startswith("!"):
                m = re.match(r"(![^@]+@)(\d+)(.*)$", tk)
                if m and int(m.group(2)) > 0:
                    for v in {0, int(m.group(2)) // 2, int(m.group(2)) - 1}:
                        cands.append((j, "%s%d%s" % (m.group(1), v, m.group(3))))
                continue
            try:
                v = float(tk)
            except ValueError:
                continue
            for nv in (0, round(v), round(v, 1), round(v, 2)):
                if nv != v and len(repr(nv)) < len(tk):
                    s = str(int(nv)) if nv == int(nv) else repr(nv)
                    if s != tk:
                        cands.append((j, s))
                        break
        for j, s in cands:
            if not left():
                break
            t = cur[i].split(" ")
            t[j] = s
            c = cur[:i] + [" ".join(t)] + cur[i + 1:]
            if fails([c]) is not None:
                cur = c
    return "\n".join(cur) + "\n"


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k["property"] == pid:
                        out.append(k)
    return out


def main_run(args):
    pid = args.id
    prop = PROPS[pid]
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    exe, nsut = build(pid)
    tbuild = time.time() - t0
    total = args.runs or prop[tier][0]
    wall = args.wall or prop[tier][1]
    bad, stats, _, states, outcomes, cov = run_batch(exe, seed, total, wall, NPROC)
    trun = time.time() - t0 - tbuild
    runs = sum(s["runs"] for s in stats)
    counters = {}
    for s in stats:
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
    violations = 0
    code = 0
    report = []
    known = known_findings(pid)
    seen = set()
    # confirmed known findings are replayed from their own files, so the line is printed on every run
    for k in known:
        r, _ = exec_plan(exe, k["plan"])
        if r and r["status"] == 2 and r["cls"] == k["cls"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for b in bad:
        if b["cls"] in seen or len(seen) >= 3:
            continue
        seen.add(b["cls"])
        r1, _ = exec_plan(exe, b["plan"])
        r2, _ = exec_plan(exe, b["plan"])
        both = r1 and r2 and r1["status"] == 2 and r2["status"] == 2
        if not both:
            print("ERROR: violation did not replay (index %s, class %s): %s / %s" % (b["index"], b["cls"], r1, r2), file=sys.stderr)
            code = code or 2
            continue
        if len({r1["hash"], r2["hash"], b["hash"]}) != 1:
            # the code under test reads something the simulator does not own (uninitialised or freed memory)
            print("note: index %s violates on every replay, but the executions differ: the code under test depends on indeterminate memory" % b["index"], file=sys.stderr)
            b["cls"] = r1["cls"]
        small = minimise(exe, b["plan"], b["cls"], 40 if tier == "quick" else 120)
        rs, trace = exec_plan(exe, small, "trace")
        re_, _ = exec_plan(exe, small)
        if not re_ or re_["status"] != 2 or re_["cls"] != b["cls"]:
            small, re_ = b["plan"], r1
        if any(k["cls"] == b["cls"] and sorted(plan_lines(k["plan"])) == sorted(plan_lines(small)) for k in known):
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.plan" % (pid, hashlib.sha256(small.encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            f.write("# property %s, run %d of base seed %d, tier %s\n" % (pid, b["index"], seed, tier))
            f.write("# violation class: %s\n# %s\n# event-log hash: %s\n" % (b["cls"], re_["msg"].replace("\n", "\n# ")[:1500], re_["hash"]))
            f.write("# replay: python3 %s/bin/check.py replay %s\n" % (VERIF, path))
            f.write(small)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  class=%s : %s" % (b["cls"], re_["msg"][:600].replace("\n", " ")))
        violations += 1
        code = 1
        report.append(dict(cls=b["cls"], index=b["index"], replay=path, msg=re_["msg"][:500]))
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe:")}
    wall_s = time.time() - t0
    samples = [s["sample"] for s in stats if s["sample"]][:2]
    if not samples:
        samples = [subprocess.run([exe, "gen", "--seed", str(seed), "--index", "0"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout[:3000]]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=len(outcomes), rule=prop["rule"], samples=samples,
                  simulated_runs=runs, runs_requested=total, cut_by_wall_clock=any(s["cut"] for s in stats),
                  runs_per_hour=int(runs / max(trun, 1e-6) * 3600),
                  simulated_steps=sum(s["steps"] for s in stats), longest_run_steps=max([s["maxsteps"] for s in stats] or [0]),
                  simulated_time=("%.3f simulated seconds on the simulated clock" % (sum(s["simns"] for s in stats) * 1e-9)
                                  if any(s["simns"] for s in stats) else
                                  "no clock in this property: simulated time is measured in steps (basic blocks or memory accesses of the code under test)"),
                  logged_events=sum(s["events"] for s in stats),
                  faults_injected=faults, faults_total=sum(faults.values()), probes=probes,
                  distinct_states=len(states), state_measure=prop["state_measure"],
                  code_blocks_reached=cov,
                  real_components=prop["real"], stub_components=prop["stub"],
                  repository_sources_compiled=nsut, build_seconds=round(tbuild, 2), search_seconds=round(trun, 2),
                  violations_reported=report),
              assumptions=prop["assumptions"], wall_s=round(wall_s, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct, %d states, faults %s, %.1f s build, %.1f s search, exit %d" % (
        pid, tier, runs, len(outcomes), len(states), sum(faults.values()), tbuild, trun, code))
    if args.verbose:
        print(json.dumps(dict(faults=faults, probes=probes), indent=1))
    return code


def main_replay(args, mode):
    with open(args.file) as f:
        text = f.read()
    pid = re.search(r"^prop (\S+)", text, re.M).group(1)
    exe, _ = build(pid)
    r, log = exec_plan(exe, text, mode)
    if mode == "trace":
        print(log)
    print(json.dumps(r, indent=1))
    m = re.search(r"event-log hash: (\w+)", text)
    if m and r["status"] == 2:
        print("event-log hash %s the recorded one" % ("equals" if m.group(1) == r["hash"] else "DIFFERS FROM"))
    return 1 if r["status"] == 2 else 0


def main_determinism(args):
    rc = 0
    for pid in args.ids or sorted(PROPS):
        exe, _ = build(pid)
        seeds = args.seeds
        total = args.runs or 200
        n = 0
        div = 0
        for s in range(1, seeds + 1):
            ref = None
            for workers in (8, 3, 5):
                _, _, hs, _, _, _ = run_batch(exe, s, total, 600, workers, hashes=True)
                if ref is None:
                    ref = hs
                else:
                    for i in ref:
                        if i in hs:
                            n += 1
                            if hs[i] != ref[i]:
                                div += 1
                                print("DIVERGED %s seed %d index %d" % (pid, s, i))
        print("%s: %d comparisons of event-log hashes over %d seeds, %d divergences" % (pid, n, seeds, div))
        rc |= div > 0
    return rc


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    p = sub.add_parser("run")
    p.add_argument("id")
    p.add_argument("--tier")
    p.add_argument("--runs", type=int)
    p.add_argument("--wall", type=float)
    p.add_argument("--seed", type=int)
    p.add_argument("-v", "--verbose", action="store_true")
    p = sub.add_parser("replay")
    p.add_argument("file")
    p = sub.add_parser("trace")
    p.add_argument("file")
    p = sub.add_parser("build")
    p.add_argument("ids", nargs="*")
    p = sub.add_parser("determinism")
    p.add_argument("ids", nargs="*")
    p.add_argument("--seeds", type=int, default=10)
    p.add_argument("--runs", type=int)
    args = ap.parse_args()
    try:
        if args.cmd == "run":
            rc = main_run(args)
        elif args.cmd in ("replay", "trace"):
            rc = main_replay(args, "exec" if args.cmd == "replay" else "trace")
        elif args.cmd == "build":
            for pid in args.ids or sorted(PROPS):
                print(build(pid)[0])
            rc = 0
        else:
            rc = main_determinism(args)
    except BuildError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except RuntimeError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
