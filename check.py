#!/usr/bin/env python3
"""Runs one check: builds the code under test from the repository's working tree, drives the generated-input search, writes
the evidence file and reports.

    check.py ID [quick|thorough]         run the check (exit 0 held, 1 violation, 2 the check itself failed)
    check.py ID --replay FILE            replay one recorded case against the current tree
Environment: VERIF_SEED, VERIF_TIER; VERIF_REPO (default /repo) and VERIF_JOBS for development.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, threading, struct

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

PLAIN = ["-g", "-O1", "-fno-omit-frame-pointer"]
SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]
INC_SRC = ["src/embedDB", "src/spline", "src/query-interface", "lib/EmbedDB-Utility", "lib/Desktop-File-Interface", "lib/SD-File-Interface", "lib/Dataflash-File-Interface"]


class BuildError(Exception):
    pass


def sh(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def in_parallel(cmds):
    errs = []

    def one(c):
        try:
            sh(c, None)
        except BuildError as e:
            errs.append(str(e))
    ths = [threading.Thread(target=one, args=(c,)) for c in cmds]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise BuildError("\n".join(errs))


def build(cid, spec, flavour, out, fuzz=False):
    """compiles the code under test and the harness; returns the executable"""
    san = list(SAN)
    if fuzz:
        san = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,fuzzer-no-link"]
    hsan, lsan = san, ["-g", "-fsanitize=address,fuzzer"] if fuzz else SAN
    objs, cmds, links = [], [], []
    inc = []
    defs = ["-DPBT_FLAVOUR=\"%s\"" % flavour]
    if flavour == "dist":
        inc = ["-I" + os.path.join(REPO, "lib/Distribution"), "-I" + os.path.join(REPO, "lib/Desktop-File-Interface")]
        defs.append("-DDIST")
        srcs = glob.glob(os.path.join(REPO, "lib/Distribution/*.c"))
    else:
        inc = ["-I" + os.path.join(REPO, d) for d in INC_SRC]
        srcs = []
        for d in ("src/embedDB", "src/spline", "src/query-interface", "lib/EmbedDB-Utility"):
            srcs += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    if spec.get("desktop", True):
        srcs += glob.glob(os.path.join(REPO, "lib/Desktop-File-Interface/*.c"))
    if spec.get("driver"):
        sodir = os.path.join(out, "so-" + flavour)
        os.makedirs(sodir)
        build_drivers(spec, flavour, sodir, fuzz)
        srcs = []
        defs.append("-DSO_DIR=\"%s\"" % sodir)
    if spec.get("threads"):
        # the code under test belongs to the program and is watched; every thread drives it through a copy of the driver of its own, which is not
        for k in range(spec["threads"]):
            links.append(["clang++", "-shared", "-g", os.path.join(out, "drv-%s.o" % flavour), "-o", os.path.join(out, "driver-%s-%d.so" % (flavour, k)), "-lm"])
        cmds.append(["clang++", "-std=gnu++17", "-c", "-w", "-g", "-O1", "-fPIC", "-fvisibility=hidden", *defs, "-I" + os.path.join(VERIF, "harness"), *inc, os.path.join(VERIF, "harness", spec["threaded"]), "-o", os.path.join(out, "drv-%s.o" % flavour)])
        defs.append("-DSO_PREFIX=\"%s\"" % os.path.join(out, "driver-" + flavour))
        san, hsan, lsan = [*PLAIN, "-fsanitize=thread"], PLAIN, [*PLAIN, "-fsanitize=thread", "-rdynamic"]
    for s in spec.get("repo_sources", []):
        srcs.append(os.path.join(REPO, s))
    inc = [x.replace("{H}", os.path.join(VERIF, "harness")).replace("{R}", REPO) for x in spec.get("inc", [])] + inc
    defs += spec.get("defs", [])
    for i, s in enumerate(srcs):
        o = os.path.join(out, "%s-%d.o" % (flavour, i))
        objs.append(o)
        cmds.append(["clang", "-c", "-w", "-std=gnu11", *san, *defs, *spec.get("cdefs", []), *inc, s, "-o", o])
    for j, h in enumerate([spec["harness"]] + spec.get("extra", [])):
        o = os.path.join(out, "%s-h%d%s.o" % (flavour, j, "f" if fuzz else ""))
        objs.append(o)
        comp = ["clang", "-std=gnu11"] if h.endswith(".c") else ["clang++", "-std=gnu++17"]
        cmds.append([*comp, "-c", "-w", *hsan, *defs, *(["-DFUZZ"] if fuzz else []), "-I" + os.path.join(VERIF, "harness"), *inc, os.path.join(VERIF, "harness", h), "-o", o])
    in_parallel(cmds)
    in_parallel(links)
    exe = os.path.join(out, flavour + ("-fuzz" if fuzz else ""))
    sh(["clang++", *lsan, *objs, "-o", exe, "-lm", "-ldl", *(["-rdynamic"] if spec.get("driver") else []), *spec.get("libs", [])], None)
    return exe


def build_drivers(spec, flavour, out, fuzz=False):
    """one shared library per flavour, each holding the code under test and the driver; loaded side by side by the harness"""
    san = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address" + (",fuzzer-no-link" if fuzz else ""), "-fPIC", "-fvisibility=hidden"]
    variants = [(*v, {})[:4] for v in spec["variants"](flavour)]  # name, sources, flags for C, options: cc, san, extra (sources), inc
    regen = os.path.join(out, "regen-src")
    os.makedirs(regen, exist_ok=True)
    if any(base == "regen" for _, base, _, _ in variants):
        sh([sys.executable, "-B", "-c", "import sys, os; sys.path.insert(0, os.path.join(sys.argv[1], 'amalgamation')); import amalgamation as a; r = sys.argv[1]; "
        "a.amalgamate([os.path.join(r, 'src/embedDB'), os.path.join(r, 'src/query-interface'), os.path.join(r, 'src/spline'), os.path.join(r, 'lib/EmbedDB-Utility')], a.aud_stand, 'embedDB', False, sys.argv[2])", REPO, regen], None)
    cmds, links = [], []
    for name, f, cflags, opt in variants:
        if f == "src":
            inc = ["-I" + os.path.join(REPO, d) for d in INC_SRC]
            defs, srcs = [], []
            for d in ("src/embedDB", "src/spline", "src/query-interface", "lib/EmbedDB-Utility"):
                srcs += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
        else:
            d = os.path.join(REPO, "lib/Distribution") if f == "dist" else regen
            inc, defs, srcs = ["-I" + d], ["-DDIST"], glob.glob(os.path.join(d, "*.c"))
        objs = []
        srcs = srcs + [x.format(R=REPO, H=os.path.join(VERIF, "harness")) for x in opt.get("extra", [])]
        inc = inc + ["-I" + x.format(R=REPO, H=os.path.join(VERIF, "harness")) for x in opt.get("inc", [])]
        for i, x in enumerate(srcs + [os.path.join(VERIF, "harness", spec["driver"])]):
            o = os.path.join(out, "drv-%s-%d.o" % (name, i))
            objs.append(o)
            comp = ["clang", "-std=gnu11"] if x.endswith(".c") else ["clang++", "-std=gnu++17"]
            flags = san
            if x.endswith(".c"):
                comp[0] = opt.get("cc", comp[0])
                flags = (opt.get("san", san)) + cflags
            cmds.append([*comp, "-c", "-w", *flags, *defs, "-DPBT_FLAVOUR=\"%s\"" % f, "-DPBT_VARIANT=\"%s\"" % name, "-I" + os.path.join(VERIF, "harness"), *inc, x, "-o", o])
        links.append(["clang++", "-shared", "-g", "-fsanitize=address", "-Wl,-Bsymbolic", *objs, "-o", os.path.join(out, "driver-%s.so" % name), "-lm"])
    in_parallel(cmds)
    in_parallel(links)
    if spec.get("x32"):
        build_32(flavour, out)


def build_32(f, out):
    """the 32-bit program of C33: the code under test, the driver and x32/; linked by hand, as there are no 32-bit start files or C++ libraries here"""
    h = os.path.join(VERIF, "harness")
    inc = ["-isystem", "/usr/include/x86_64-linux-gnu", "-I" + os.path.join(h, "x32"), "-I" + h]
    if f == "src":
        inc += ["-I" + os.path.join(REPO, d) for d in INC_SRC]
        srcs = []
        for d in ("src/embedDB", "src/spline", "src/query-interface", "lib/EmbedDB-Utility"):
            srcs += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    else:
        inc += ["-I" + os.path.join(REPO, "lib/Distribution"), "-DDIST"]
        srcs = glob.glob(os.path.join(REPO, "lib/Distribution/*.c"))
    both = ["-w", "-g", "-O1", "-msse2", "-mfpmath=sse", "-fno-pic", "-fno-stack-protector", "-DPBT_FLAVOUR=\"%s\"" % f]
    cxx = ["clang++", "--target=i386-linux-gnu", "-std=gnu++17", "-DPBT_32", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics"]
    for d in sorted(glob.glob("/usr/include/c++/*"))[-1:]:
        cxx += ["-isystem", d, "-isystem", d.replace("/include/", "/include/x86_64-linux-gnu/")]
    cc = ["clang", "-m32", "-std=gnu11", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute", "-fsanitize-trap=all"]
    cmds = []
    for i, x in enumerate([os.path.join(h, "x32/start.S")] + srcs + [os.path.join(h, "c25drv.cpp"), os.path.join(h, "x32/server.cpp")]):
        cmds.append([*(cxx if x.endswith(".cpp") else cc if x.endswith(".c") else ["clang", "-m32"]), *(both if not x.endswith(".S") else []), *(inc if not x.endswith(".S") else []), "-c", x, "-o", os.path.join(out, "x32-%d.o" % i)])
    in_parallel(cmds)
    sh(["ld", "-m", "elf_i386", "--dynamic-linker", "/usr/lib32/ld-linux.so.2", *[c[-1] for c in cmds], "/usr/lib32/libc.so.6", "/usr/lib32/libm.so.6", "/usr/lib32/libgcc_s.so.1", "-o", os.path.join(out, "driver32")], None)


def env_for(spec):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:quarantine_size_mb=4:malloc_context_size=3:handle_segv=1:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:symbolize=1:detect_stack_use_after_return=0" + spec.get("asan", "")
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:report_thread_leaks=0:report_signal_unsafe=0:die_after_fork=0:history_size=3:detect_deadlocks=0"
    e["PBT_REPO"] = REPO
    return e


def known_findings(cid):
    """entries of known-findings.txt: 'finding: property=ID replay=FILE flavour=F <what>' and 'fixed: property=ID <commit> <what>'"""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return res
    for line in open(p):
        m = re.match(r"finding: property=(\S+) replay=(\S+) match=\"([^\"]*)\" (.*)", line)
        if m and m.group(1) == cid:
            res.append({"replay": m.group(2), "match": m.group(3), "what": m.group(4).strip()})
    return res


def run_engine(cid, spec, tier, seed, tmp):
    flavours = spec.get("flavours", ["src", "dist"])
    cases = spec["quick"] if tier == "quick" else spec["thorough"]
    maxs = spec.get("quick_s", 150) if tier == "quick" else spec.get("thorough_s", 600)
    jobs = max(1, int(os.environ.get("VERIF_JOBS", "8")) // len(flavours))
    exes, errs = {}, []

    def b(f):
        try:
            exes[f] = build(cid, spec, f, tmp)
        except BuildError as e:
            errs.append(str(e))
    ths = [threading.Thread(target=b, args=(f,)) for f in flavours]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs))
        sys.exit(2)
    env = env_for(spec)
    replaydir = os.path.join(VERIF, "replays")
    os.makedirs(replaydir, exist_ok=True)
    procs = {}
    for n, f in enumerate(flavours):
        rp = os.path.join(replaydir, "%s-%s-seed%d.txt" % (cid, f, seed))
        if os.path.exists(rp):
            os.unlink(rp)
        wd = os.path.join(tmp, "w-" + f)
        os.makedirs(wd)
        cmd = [exes[f], "--seed=%d" % seed, "--cases=%d" % cases, "--first=%d" % (n * 100000000), "--jobs=%d" % jobs, "--max-seconds=%d" % maxs,
               "--shrink-seconds=%d" % spec.get("shrink_s", 40), "--replay-out=" + rp, "--json=" + os.path.join(tmp, f + ".json"), "--tmp=" + wd]
        procs[f] = (subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), rp)
    res, viol, broken = {}, [], []
    for f, (p, rp) in procs.items():
        out, _ = p.communicate()
        sys.stdout.write(out)
        try:
            res[f] = json.load(open(os.path.join(tmp, f + ".json")))
        except Exception as e:
            broken.append("%s: no result (exit %s): %s" % (f, p.returncode, e))
            continue
        if p.returncode == 1:
            viol.append((f, rp, res[f]["message"]))
        elif p.returncode != 0:
            broken.append("%s: exit %s" % (f, p.returncode))
    hashes = set()
    for f in res:
        hp = os.path.join(tmp, f + ".json.hashes")
        if os.path.exists(hp):
            d = open(hp, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(d) // 8), d))
    tags = {}
    for f in res:
        for k, v in res[f]["tags"].items():
            tags[k] = tags.get(k, 0) + v
    samples = []
    for f in res:
        for s in res[f]["samples"]:
            samples.append("[%s] %s" % (f, s))
    cov = {
        "evaluations": sum(r["evaluations"] for r in res.values()),
        "distinct_nontrivial": len(hashes),
        "rule": spec["rule"],
        "samples": samples[:4],
        "discarded": sum(r["discarded"] for r in res.values()),
        "inconclusive": sum(r["inconclusive"] for r in res.values()),
        "by_build": {f: r["evaluations"] for f, r in res.items()},
        "classes": tags,
    }
    return cov, viol, broken, exes


def replay_findings(cid, spec, exes, env):
    """listed findings: each must still be reported, by its own history, on every run"""
    n = 0
    for k in known_findings(cid):
        path = os.path.join(VERIF, k["replay"])
        for f, exe in exes.items():
            with tempfile.TemporaryDirectory() as t:
                p = subprocess.run([exe, "--replay=" + path, "--tmp=" + t], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1 and k["match"] in p.stdout:
                print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
                n += 1
                break
    return n


def fuzz_stage(cid, spec, tmp, seconds, env):
    """thorough tier: coverage-guided search (libFuzzer) over the same choice sequences"""
    viol = []
    execs = 0
    flavours = spec.get("flavours", ["src", "dist"])
    procs = []
    for f in flavours:
        out = os.path.join(tmp, "fz-" + f)
        os.makedirs(out)
        exe = build(cid, spec, f, out, fuzz=True)
        for j in range(max(1, 8 // len(flavours))):
            corpus = os.path.join(out, "corpus%d" % j)
            os.makedirs(corpus)
            for k in range(16):
                h = b"".join(hashlib.sha256(b"%d %d %d" % (j, k, i)).digest() for i in range(64))
                open(os.path.join(corpus, "s%d" % k), "wb").write(h)
            e = dict(env)
            e["PBT_FUZZ_OUT"] = os.path.join(out, "fail%d.txt" % j)
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("abort_on_error=0", "abort_on_error=1")
            log = open(os.path.join(out, "log%d" % j), "w")
            procs.append((f, out, j, exe, subprocess.Popen([exe, corpus, "-max_total_time=%d" % seconds, "-max_len=8192", "-seed=%d" % (j + 1 + int(os.environ.get("VERIF_SEED", "1")) * 100), "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=" + os.path.join(out, "a%d-" % j), "-print_final_stats=1"], env=e, stdout=log, stderr=log, cwd=out)))
    for f, out, j, exe, p in procs:
        p.wait()
        txt = open(os.path.join(out, "log%d" % j), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units: (\d+)", txt)
        if m:
            execs += int(m.group(1))
        if p.returncode:
            arts = sorted(glob.glob(os.path.join(out, "a%d-*" % j)))
            for a in arts:
                rp = os.path.join(VERIF, "replays", "%s-%s-fuzz-%s" % (cid, f, os.path.basename(a)))
                fr = os.path.join(out, "fail%d.txt" % j)
                # run once more on its own: a real failure repeats
                p2 = subprocess.run([exe, a], env={**env, "PBT_FUZZ_OUT": fr}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=out)
                if p2.returncode == 0:
                    continue
                shutil.copy(fr if os.path.exists(fr) else a, rp)
                mm = re.search(r"PBT FAILURE: (.*)|SUMMARY: (.*)", p2.stdout)
                viol.append((f, rp, "coverage-guided: " + (mm.group(0) if mm else "crash")))
    return execs, viol


def main():
    cid = sys.argv[1]
    spec = CHECKS[cid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if spec.get("runner"):
        mod = __import__(spec["runner"])
        sys.exit(mod.main(cid, spec, tier, seed, sys.argv[2:]))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % cid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            rc = 0
            for f in spec.get("flavours", ["src", "dist"]):
                exe = build(cid, spec, f, tmp)
                print("== build", f)
                rc |= subprocess.run([exe, "--replay=" + sys.argv[3], "--tmp=" + tmp], env=env_for(spec)).returncode
            sys.exit(rc)
        cov, viol, broken, exes = run_engine(cid, spec, tier, seed, tmp)
        env = env_for(spec)
        nk = replay_findings(cid, spec, exes, env)
        if tier == "thorough" and not viol and not broken and not spec.get("no_fuzz"):
            n, v = fuzz_stage(cid, spec, tmp, spec.get("fuzz_s", 300), env)
            cov["coverage_guided_executions"] = n
            viol += v
        write_evidence(cid, spec, tier, seed, cov, time.time() - t0, len(viol), nk)
        for f, rp, msg in viol:
            print("VIOLATION property=%s replay=%s" % (cid, rp))
            print("  [%s] %s" % (f, msg))
        if viol:
            sys.exit(1)
        if broken:
            print("CHECK FAILED: " + "; ".join(broken))
            sys.exit(2)
        print("%s: held on %d generated cases (%d distinct non-trivial), %.0f s" % (cid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_evidence(cid, spec, tier, seed, cov, wall, nviol, nknown=0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": cid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    if nknown:
        ev["coverage"]["known_findings_reproduced"] = nknown
    p = os.path.join(VERIF, "evidence", cid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()
