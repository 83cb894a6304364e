#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]  decide one property on /repo's working tree.
   check.py --build-all                                            compile everything (used by setup_cmd).
Exit 0: held on everything explored.  1: violation (line "VIOLATION property=<id> replay=<path>").  2: error."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8

SIM = ["sim.cc", "sim_oracles.cc", "sim_checks.cc"]
UNITS = ["unit_follower.cc", "unit_log.cc", "unit_storage.cc", "unit_quorum.cc", "unit_conf.cc", "unit_progress.cc",
         "unit_timing.cc", "unit_gate.cc", "unit_reads.cc"]
ALL = ["C%02d" % i for i in range(1, 38)]

VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"], ld=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=thread"],
                 ld=["-fsanitize=thread"] + ["-Wl,--wrap=pthread_%s" % f for f in (
                     "rwlock_unlock", "mutex_unlock", "rwlock_wrlock", "mutex_lock")]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=fuzzer-no-link,address,undefined",
                                       "-fno-sanitize-recover=all", "-DPBT_LIBFUZZER"],
                 ld=["-fsanitize=fuzzer,address,undefined"]),
}
COMMON = ["-std=gnu++17", "-w", "-pthread"]


def sources_for(prop):
    if prop in ("C32", "C34"):
        return ["runner.cc", "unit_tsan.cc", "unit_threads.cc"]
    if prop == "C37":
        return ["runner.cc", "unit_diag.cc"]
    return ["runner.cc", "san.cc"] + SIM + UNITS


def variant_for(prop):
    return {"C31": "asan", "C32": "tsan", "C34": "tsan", "C37": "asan"}.get(prop, "plain")


def repo_sources():
    out = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True)):
        b = os.path.basename(p)
        if b.endswith("_test.cc") or b in ("raft_test_util.cc", "raft.pb.cc"):
            continue
        out.append(p)
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def gen_proto():
    proto = REPO + "/src/raftpb/raft.proto"
    with open(proto, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    d = os.path.join(BUILD, "gen-" + key)
    if not os.path.exists(d + "/src/raftpb/raft.pb.cc"):
        t = tempfile.mkdtemp(dir=BUILD)
        r = run(["protoc", "-I" + REPO, "--cpp_out=" + t, proto])
        if r.returncode:
            raise SystemExit("protoc failed:\n" + r.stdout)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


def build(prop_sources, variant, name):
    os.makedirs(BUILD, exist_ok=True)
    v = VARIANTS[variant]
    gen = gen_proto()
    flags = COMMON + v["flags"] + ["-I" + gen, "-I" + REPO, "-I" + VERIF + "/src"]
    rh = [p for p in glob.glob(REPO + "/src/**/*.h", recursive=True)]
    vh = glob.glob(VERIF + "/src/*.h")
    repo_key = digest([p for p in rh if not p.endswith(".pb.h")] + [gen + "/src/raftpb/raft.pb.h"])
    ver_key = digest(vh)
    tus = [(p, "repo") for p in repo_sources()] + [(gen + "/src/raftpb/raft.pb.cc", "gen")]
    tus += [(os.path.join(VERIF, "src", s), "verif") for s in prop_sources]
    jobs = []
    objs = []
    os.makedirs(BUILD + "/obj", exist_ok=True)
    for p, kind in tus:
        h = hashlib.sha256()
        h.update((" ".join(flags) + v["cxx"] + variant).encode())
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(p.encode())
        if kind != "gen":
            h.update(repo_key.encode())
        if kind == "verif":
            h.update(ver_key.encode())
        o = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(p).replace(".cc", ""), h.hexdigest()[:24])
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(p) * (3 if kind == "verif" else 1), p, o))
    jobs.sort(reverse=True)

    def compile_one(j):
        _, p, o = j
        t = o + ".%d.tmp" % os.getpid()
        r = run([v["cxx"]] + flags + ["-c", p, "-o", t])
        if r.returncode:
            return "%s:\n%s" % (p, r.stdout[:6000])
        os.rename(t, o)
        return None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise SystemExit("BUILD-ERROR (exit 2)\n" + "\n".join(errs[:3]))
    exe = "%s/%s-%s-%s" % (BUILD, name, variant, hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = run([v["cxx"], "-pthread"] + v["ld"] + objs + ["-lprotobuf", "-o", t])
        if r.returncode:
            raise SystemExit("LINK-ERROR (exit 2)\n" + r.stdout[:6000])
        os.rename(t, exe)
    return exe


def prune():
    """Keep the object cache small."""
    fs = glob.glob(BUILD + "/obj/*.o") + [p for p in glob.glob(BUILD + "/*") if os.path.isfile(p)]
    fs.sort(key=os.path.getmtime)
    tot = sum(os.path.getsize(p) for p in fs)
    while fs and tot > 3 << 30:
        p = fs.pop(0)
        tot -= os.path.getsize(p)
        os.unlink(p)


def exe_name(prop):
    return "tsan" if prop in ("C32", "C34") else "diag" if prop == "C37" else "all"


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:handle_abort=0:exitcode=99:quarantine_size_mb=16:malloc_context_size=3"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:report_signal_unsafe=0"
    return e


def fuzz_stage(prop, targets, secs, replays, seed):
    """Coverage-guided search (libFuzzer) over the same case functions. Returns (stats list, violation or None)."""
    exe = build(sources_for("C31"), "fuzz", "fuzz")
    stats, viol = [], None
    work = tempfile.mkdtemp(prefix="pbtfuzz.")
    try:
        def one(k):
            t = targets[k]
            d = os.path.join(work, "%d" % k)
            os.makedirs(d + "/corpus")
            e = san_env()
            e["PBT_PROP"] = t
            rp = os.path.join(d, "replay.txt")
            e["PBT_FUZZ_REPLAY"] = rp
            r = run([exe, "-max_total_time=%d" % secs, "-max_len=2500", "-len_control=20", "-timeout=60",
                     "-rss_limit_mb=3000", "-seed=%d" % (seed * 1000 + k + 1), "-artifact_prefix=" + d + "/",
                     "-print_final_stats=1", "-use_value_profile=1", d + "/corpus"], env=e, cwd=d)
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", r.stdout)
            c = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", r.stdout)
            st = dict(target=t, executed=int(m.group(1)) if m else 0, cov=int(c[-1][0]) if c else 0,
                      features=int(c[-1][1]) if c else 0, corpus=int(c[-1][2]) if c else 0, rc=r.returncode)
            return st, r.returncode, r.stdout, rp, d
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for st, rc, outp, rp, d in ex.map(one, range(len(targets))):
                stats.append(st)
                if rc and viol is None:
                    os.makedirs(replays, exist_ok=True)
                    arts = [a for a in glob.glob(d + "/*") if re.search(r"/(crash|oom|timeout|leak)-", a)]
                    if not arts:
                        continue
                    # a finding only counts when the artifact reproduces it
                    e = san_env()
                    e["PBT_PROP"] = st["target"]
                    e["PBT_FUZZ_REPLAY"] = rp
                    again = run([exe, "-timeout=60", "-rss_limit_mb=3000", arts[0]], env=e, cwd=d)
                    if again.returncode == 0:
                        continue
                    dst = os.path.join(replays, "%s-fuzz-%s-%s" % (prop, st["target"], os.path.basename(arts[0])))
                    shutil.copy(arts[0], dst)
                    if os.path.exists(rp):
                        shutil.copy(rp, dst + ".txt")
                    with open(dst + ".log", "w") as f:
                        f.write(again.stdout[-8000:])
                    viol = (dst, again.stdout[-3000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return stats, viol


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        for name, srcs, var in sorted({(exe_name(p), tuple(sources_for(p)), variant_for(p)) for p in ALL}):
            if all(os.path.exists(os.path.join(VERIF, "src", s)) for s in srcs):
                t = time.time()
                build(list(srcs), var, name)
                print("built %s (%s) in %.1fs" % (name, var, time.time() - t), flush=True)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    extra = []
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        else: extra.append(a[i]); i += 1
    t0 = time.time()
    try:
        exe = build(sources_for(prop), variant_for(prop), exe_name(prop))
        prune()
    except SystemExit as e:
        print(e)
        return 2
    build_s = time.time() - t0
    if replay:
        return subprocess.run([exe, "--prop", prop, "--replay", replay] + extra, env=san_env()).returncode
    work = tempfile.mkdtemp(prefix="pbt.")
    try:
        out = os.path.join(work, "out.json")
        replays = os.path.join(VERIF, "replays")
        r = subprocess.run([exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--replays", replays,
                            "--tmp", work] + extra, env=san_env())
        if not os.path.exists(out):
            print("ERROR: runner ended with %s and wrote no result" % r.returncode)
            return 2
        with open(out) as f:
            res = json.load(f)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rc = res["rc"]
    replay_path = res["replay"]
    cov = {
        "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"],
        "samples": res["samples"], "planned": res["planned"], "library_calls": res["events"],
        "labels": res["labels"], "build_s": round(build_s, 1), "variant": variant_for(prop),
    }
    if prop not in ("C32", "C34", "C37") and tier == "thorough" and rc == 0:
        # C31: eight different kinds of case; elsewhere eight differently seeded searches over this property's cases
        tg = ["C02", "C10", "C13", "C18", "C22", "C25", "C28", "C35"] if prop == "C31" else [prop] * 8
        st, viol = fuzz_stage(prop, tg, int(os.environ.get("PBT_FUZZ_SECS", "600")), os.path.join(VERIF, "replays"), seed)
        cov["coverage_guided"] = st
        cov["evaluations"] += sum(s["executed"] for s in st)
        if viol:
            rc, replay_path = 1, viol[0]
            res["message"] = viol[1]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["legal histories as listed in DESIGN.md section 2", "the library's only randomness is std::random_device, which the harness replaces"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d cases (%d distinct non-trivial) of %d planned, %d library calls, %.1fs + %.1fs build" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], cov["planned"], cov["library_calls"], res["wall_s"], build_s))
    if rc == 1:
        print(res["message"])
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    if rc != 0:
        print("ERROR: rc=%d" % rc)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
