#!/usr/bin/env python3
"""Builds and runs the monitors of one property.

  run.py check ID            quick or thorough, by VERIF_TIER; seed by VERIF_SEED
  run.py replay ID TU SCENARIO ITER [SEED] [TIER]
  run.py cover ID [files..]  development aid: line coverage of library headers

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s) printed.
Exit 2/3: the check itself failed (harness did not build, nothing observed,
resource exhaustion): no verdict.
"""
import concurrent.futures as cf, glob, json, os, re, resource, shutil, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
BUILD = os.environ.get("MON_BUILD", os.path.join(V, ".build"))
CXX = os.environ.get("MON_CXX", "g++-10").split()
BASE = ["-std=gnu++17", "-w", "-fno-omit-frame-pointer", "-I", REPO, "-I", os.path.join(V, "mon"), "-I", os.path.join(V, "acl"), "-I", REPO + "/library"]
VARIANTS = {
    # address + undefined behaviour + libstdc++ container checks
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    # optimised build, debug-mode containers (iterator validity, comparator sanity)
    "debug": ["-O2", "-g1", "-D_GLIBCXX_DEBUG"],
    # what users compile
    "plain": ["-O2", "-g1"],
    "cov": ["-O0", "--coverage", "-fno-inline", "-fno-elide-constructors"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=0:"
                        "max_malloc_fill_size=65536:malloc_fill_byte=165:max_free_fill_size=256:detect_stack_use_after_return=1:"
                        "strict_init_order=1:check_initialization_order=1:handle_abort=1:allow_user_segv_handler=1:quarantine_size_mb=32:malloc_context_size=6",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
JOBS = int(os.environ.get("MON_JOBS", os.cpu_count() or 8))


def setup():
    """Nothing is built ahead of time (checks rebuild from /repo); verify the toolchain only."""
    for f in glob.glob(os.path.join(V, "harness", "*", "*.cpp")):
        assert os.path.getsize(f)
    r = subprocess.run(CXX + ["--version"], stdout=subprocess.PIPE)
    print(r.stdout.decode().splitlines()[0])
    return r.returncode


def limits():
    try:
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        want = 512 << 20
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass


def directives(src):
    d = {}
    with open(src) as f:
        for line in f:
            if line.startswith("// MON:"):
                for kv in line[7:].split():
                    k, _, v = kv.partition("=")
                    d[k] = v
            elif not line.startswith("//"):
                break
    return d


def sources(pid):
    return sorted(glob.glob(os.path.join(V, "harness", pid, "*.cpp")))


def compile_tu(pid, src, variant):
    d = directives(src)
    out = os.path.join(BUILD, pid, variant)
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, os.path.basename(src)[:-4])
    flags = [x for x in d.get("flags", "").split(",") if x]
    cmd = CXX + BASE + VARIANTS[variant] + flags + [src, "-o", exe]
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=out)
    return exe, r.returncode, r.stderr, time.time() - t


def read_status(path):
    try:
        b = open(path, "rb").read()
        name = b[:120].split(b"\0")[0].decode() or "startup"
        it, ev, cases, hang = struct.unpack("<4Q", b[120:152])
        return name, it, ev, cases, hang
    except Exception:
        return "startup", 0, 0, 0, 0


def execute(exe, args, tag, timeout):
    """-> dict(kind=ok|violation|hang|inconclusive, ...)"""
    stat, out = f"{exe}.{tag}.stat", f"{exe}.{tag}.json"
    for f in (stat, out):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "--status", stat, "--out", out] + args
    try:
        r = subprocess.run(cmd, capture_output=True, env=ENV, timeout=timeout, preexec_fn=limits, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        n = read_status(stat)
        return dict(kind="inconclusive", why="wall-clock watchdog", scenario=n[0], iter=n[1], err="")
    err = r.stderr.decode(errors="replace")
    n = read_status(stat)
    if r.returncode == 0 and os.path.exists(out):
        return dict(kind="ok", data=json.load(open(out)))
    if r.returncode == 3:
        return dict(kind="inconclusive", why="harness set-up failed", scenario=n[0], iter=n[1], err=err)
    if r.returncode == -9:
        return dict(kind="inconclusive", why="killed", scenario=n[0], iter=n[1], err=err)
    if r.returncode == 78:
        return dict(kind="hang", scenario=n[0], iter=n[1], err=err)
    return dict(kind="violation", rc=r.returncode, scenario=n[0], iter=n[1], err=err)


def summary(err):
    for pat in (r"MONITOR-VIOLATION.*", r"MONITOR-HANG.*", r".*runtime error:.*", r"SUMMARY: .*", r".*Assertion .*", r".*Error: .*", r"terminate called.*"):
        m = re.search(pat, err)
        if m:
            return m.group(0)[:600]
    return err.strip()[-300:].replace("\n", " | ") or "abnormal termination"


def known_findings():
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    variants = ["asan", "debug"] if thorough else ["asan"]
    srcs = sources(pid)
    if not srcs:
        print(f"no harness for {pid}", file=sys.stderr)
        return 2
    shutil.rmtree(os.path.join(BUILD, pid), ignore_errors=True)
    scale = os.environ.get("MON_SCALE", "1")
    wall = 3000 if thorough else 600
    results, build_fail = [], []
    pool = cf.ThreadPoolExecutor(JOBS)
    runs = []
    order = sorted(srcs, key=lambda s: -os.path.getsize(s))
    comp = {pool.submit(compile_tu, pid, s, v): (s, v) for v in variants for s in order}
    tu_time = {}
    for f in cf.as_completed(comp):
        s, v = comp[f]
        exe, rc, err, dt = f.result()
        tu = os.path.basename(s)[:-4]
        if rc:
            build_fail.append((tu, v, err))
            continue
        d = directives(s)
        shards = int(d.get("shards", 4))
        if thorough:
            shards = max(shards, 8)
        common = ["--seed", str(seed), "--scale", scale] + (["--thorough"] if thorough else [])
        for k in range(shards):
            runs.append((pool.submit(execute, exe, common + ["--shard", str(k), "--shards", str(shards)], f"s{k}", wall), tu, v, exe))
        runs.append((pool.submit(execute, exe, common + ["--known"], "known", wall), tu, v, exe))
    if build_fail:
        for tu, v, err in build_fail:
            print(f"harness {pid}/{tu} ({v}) does not build:\n{err[-3000:]}", file=sys.stderr)
    per, bad, incon, samples = {}, [], [], []
    known_hit = {}
    finds = [k for k in known_findings() if k.get("property") == pid]
    for f, tu, v, exe in runs:
        r = f.result()
        if r["kind"] == "hang":
            # a hang is only reported when the single case exceeds the CPU budget again
            r2 = execute(exe, ["--seed", str(seed), "--scale", scale, "--scenario", r["scenario"], "--iter", str(r["iter"])] + (["--thorough"] if thorough else []), "again", wall)
            if r2["kind"] == "ok":
                incon.append((tu, v, dict(r, why="CPU budget exceeded once, not on re-run")))
                continue
            r = dict(r2, kind="violation") if r2["kind"] in ("hang", "violation") else r2
        if r["kind"] == "ok":
            for x in r["data"]:
                key = f"{tu}.{x['scenario']}"
                a = per.setdefault(key, dict(cases=0, observations=0, distinct=0))
                for q in ("cases", "observations", "distinct"):
                    a[q] += x[q]
                samples += [f"{key}: {y}" for y in x["samples"]]
        elif r["kind"] == "violation":
            hit = [k for k in finds if k.get("scenario") == r["scenario"] and k.get("tu") == tu and re.search(k.get("match", "."), summary(r["err"]))]
            if hit:
                known_hit[hit[0]["id"]] = hit[0]
            else:
                bad.append((tu, v, exe, r))
        else:
            incon.append((tu, v, r))
    pool.shutdown()
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev = os.environ.get("MON_EVIDENCE", os.path.join(V, "evidence"))
    os.makedirs(ev, exist_ok=True)
    seen = set()
    for tu, v, exe, r in bad:
        if (tu, r["scenario"]) in seen:
            continue
        seen.add((tu, r["scenario"]))
        rep = os.path.join(ev, f"replay-{pid}-{tu}-{r['scenario']}.txt")
        again = subprocess.run([exe, "--seed", str(seed), "--scale", scale, "--scenario", r["scenario"], "--iter", str(r["iter"]), "--verbose", "--hang-ticks", "5"] + (["--thorough"] if thorough else []),
                               capture_output=True, env=ENV, preexec_fn=limits, timeout=120, cwd=os.path.dirname(exe)) if len(seen) <= 5 else None
        with open(rep, "w") as f:
            f.write(f"property {pid}, harness {tu}, build {v}, scenario {r['scenario']}, case {r['iter']}, seed {seed}, tier {tier}\n")
            f.write(f"replay: python3 {V}/run.py replay {pid} {tu} {r['scenario']} {r['iter']} {seed} {tier}\n\nfirst observation:\n{r['err'][:6000]}\n")
            if again is not None:
                f.write(f"\nre-run of the case alone (exit {again.returncode}), with its operation log:\n{again.stdout.decode(errors='replace')[-20000:]}\n{again.stderr.decode(errors='replace')[:6000]}\n")
        print(f"  {tu}.{r['scenario']} case {r['iter']} [{v}]: {summary(r['err'])}")
        print(f"VIOLATION property={pid} replay={rep}")
    for tu, v, r in incon:
        print(f"inconclusive: {tu} [{v}] {r.get('scenario')} case {r.get('iter')}: {r.get('why')}", file=sys.stderr)
    tot = {q: sum(a[q] for a in per.values()) for q in ("cases", "observations", "distinct")}
    silent = [k for k, a in per.items() if a["observations"] == 0 and not k.endswith("_scaled")]
    step = max(1, len(samples) // 12)
    evd = dict(property=pid, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=tot["cases"], distinct_nontrivial=tot["distinct"],
                             rule="a case is one seeded workload of a scenario run on the real library code under ASan+UBSan+libstdc++ assertions; "
                                  "it is counted as distinct and non-trivial when at least two observations were compared with the reference model and its sequence of observed values differs from every other case of the scenario in the same process",
                             samples=samples[::step][:12],
                             observations_checked=tot["observations"], builds=variants, harnesses=len(srcs), scenarios=per),
               assumptions=["reference models in /verif/harness are correct", "inputs satisfy the documented preconditions",
                            "ac-library headers, where a component needs them, are the stand-ins in /verif/acl"],
               wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump(evd, f, indent=1)
    if bad:
        return 1
    if build_fail or incon:
        return 2
    if not per or silent:
        print(f"nothing observed in {silent}", file=sys.stderr)
        return 2
    print(f"{pid}: held on {tot['cases']} cases, {tot['observations']} observations, {len(per)} scenarios, {round(time.time() - t0, 1)} s")
    return 0


def replay(a):
    pid, tu, sc, it = a[:4]
    seed = a[4] if len(a) > 4 else "1"
    tier = a[5] if len(a) > 5 else "quick"
    exe, rc, err, _ = compile_tu(pid, os.path.join(V, "harness", pid, tu + ".cpp"), "asan")
    if rc:
        print(err)
        return 2
    return subprocess.run([exe, "--seed", seed, "--scenario", sc, "--iter", it, "--verbose"] + (["--thorough"] if tier == "thorough" else []), env=ENV, preexec_fn=limits).returncode


def cover(a):
    pid = a[0]
    only = a[1:]
    out = os.path.join(BUILD, pid, "cov")
    shutil.rmtree(out, ignore_errors=True)
    srcs = [s for s in sources(pid) if not only or os.path.basename(s)[:-4] in only]
    hit, all_ = {}, {}

    def one(s):
        tu = os.path.basename(s)[:-4]
        exe, rc, err, _ = compile_tu(pid, s, "cov")
        if rc:
            print(err[-2000:])
            return
        subprocess.run([exe, "--scale", os.environ.get("MON_SCALE", "0.3")], capture_output=True, cwd=out, preexec_fn=limits)
        d = os.path.join(out, tu + ".g")
        os.makedirs(d, exist_ok=True)
        g = [f for f in os.listdir(out) if f.endswith(".gcda") and (f == tu + ".gcda" or f == f"{tu}-{tu}.gcda")]
        for x in g:
            subprocess.run(["gcov-10", "-l", "-p", os.path.join(out, x)], capture_output=True, cwd=d)
        return d
    with cf.ThreadPoolExecutor(JOBS) as p:
        dirs = list(p.map(one, srcs))
    for d in dirs:
        if not d:
            continue
        for f in glob.glob(d + "/*.gcov"):
            src = None
            for line in open(f, errors="replace"):
                m = re.match(r"\s*([^:]+):\s*(\d+):(.*)", line)
                if not m:
                    continue
                c, n, txt = m.group(1).strip(), int(m.group(2)), m.group(3)
                if n == 0:
                    if txt.startswith("Source:"):
                        src = os.path.realpath(os.path.join(out, txt[7:]))
                    continue
                if not src or "/library/" not in src:
                    continue
                if c == "-":
                    continue
                all_.setdefault(src, {})[n] = txt
                if not c.startswith(("#", "=")):
                    hit.setdefault(src, set()).add(n)
    for src in sorted(all_):
        miss = [n for n in sorted(all_[src]) if n not in hit.get(src, ())]
        print(f"{src[src.index('/library/')+9:]}: {len(all_[src]) - len(miss)}/{len(all_[src])}")
        for n in miss:
            print(f"     {n}: {all_[src][n].strip()[:140]}")
    return 0


if __name__ == "__main__":
    c = sys.argv[1]
    sys.exit({"check": lambda: check(sys.argv[2]), "replay": lambda: replay(sys.argv[2:]), "cover": lambda: cover(sys.argv[2:]), "setup": setup}[c]())
