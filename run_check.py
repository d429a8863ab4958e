#!/usr/bin/env python3
"""Builds one property's harness against /repo/include and runs it.

  run_check.py <id> [quick|thorough] [--replay FILE] [--keep]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks_config import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer", "-pthread"]
BASE = ["-g1", "-w", "-I" + INC, "-I" + os.path.join(HERE, "harness"), "-DVERIF=1"]


def compile_one(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, " ".join(cmd), r.stdout


def thread_sanitizer(out):
    """The thread sanitizer needs a memory layout that not every kernel setting gives it."""
    src, exe = os.path.join(out, "t.cpp"), os.path.join(out, "t")
    with open(src, "w") as f:
        f.write("#include <thread>\nint main() { int x = 0; std::thread([&] { x = 1; }).join(); return x - 1; }\n")
    return compile_one(["g++"] + TSAN + [src, "-o", exe])[0] == 0 and subprocess.run([exe]).returncode == 0


def build(cfg, out, fuzz=False):
    """Compiles the units of a property in parallel and links them; returns the binary's path."""
    cmds, objs = [], []
    san = SAN
    if cfg.get("threads"):
        cfg = dict(cfg, flags=cfg.get("flags", []) + ["-pthread"])
        san = SAN + ["-pthread"]
        if not fuzz:
            if thread_sanitizer(out):
                san = TSAN
            else:
                print("NOTE: no thread sanitizer here; running with the address sanitizer")
    main = os.path.join(HERE, "harness", "pbt_main.cpp")
    if fuzz:
        cxx = "clang++"
        common = ["-O1", "-std=" + cfg.get("std", "c++17"), "-DPBT_LIBFUZZER",
                  "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"] + BASE
    else:
        cxx = "g++"
        common = ["-O1", "-std=" + cfg.get("std", "c++17")] + san + BASE
    units = [(u, []) if isinstance(u, str) else (u[0], list(u[1:])) for u in cfg["units"]]
    for i, (u, extra) in enumerate(units):
        o = os.path.join(out, ("f" if fuzz else "") + "u%d.o" % i)
        cmds.append([cxx] + common + cfg.get("flags", []) + extra + ["-c", os.path.join(HERE, "harness", u), "-o", o])
        objs.append(o)
    mo = os.path.join(out, ("f" if fuzz else "") + "main.o")
    cmds.append([cxx] + (common if fuzz else ["-O1", "-std=c++17"] + BASE) + ["-c", main, "-o", mo])
    objs.append(mo)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for rc, c, txt in ex.map(compile_one, cmds):
            if rc:
                print("BUILD FAILED:", c)
                print(txt[-4000:])
                sys.exit(2)
    exe = os.path.join(out, "fuzz" if fuzz else "check")
    link = [cxx] + (["-fsanitize=fuzzer,address,undefined"] if fuzz else san[:1]) + (["-pthread"] if cfg.get("threads") else []) + objs + ["-o", exe]
    rc, c, txt = compile_one(link)
    if rc:
        print("LINK FAILED:", c)
        print(txt[-4000:])
        sys.exit(2)
    return exe


def selftest():
    """setup_cmd: only checks that the toolchain is there; every check builds what it needs from /repo itself."""
    for c in ("g++", "clang++"):
        r = subprocess.run([c, "--version"], stdout=subprocess.DEVNULL)
        if r.returncode:
            return 1
    return 0 if os.path.exists(os.path.join(INC, "json_struct", "json_struct.h")) else 1


def main():
    if sys.argv[1] == "--selftest":
        return selftest()
    pid = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    keep = False
    i = 0
    while i < len(rest):
        if rest[i] in ("quick", "thorough"):
            tier = rest[i]
        elif rest[i] == "--replay":
            i += 1
            replay = os.path.abspath(rest[i])
        elif rest[i] == "--keep":
            keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(HERE, "build")
    os.makedirs(bdir, exist_ok=True)
    out = tempfile.mkdtemp(prefix=pid + ".", dir=bdir)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096:"
                           "detect_stack_use_after_return=0:quarantine_size_mb=16:handle_segv=1:handle_sigfpe=1")
    env["VERIF_KNOWN"] = os.path.join(HERE, "known_findings.txt")
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    try:
        exe = build(cfg, out)
        tbuild = time.time() - t0
        if replay:
            r = subprocess.run([exe, "--replay", replay, "--scratch", out, "--replays", replays], env=env)
            return r.returncode
        q = cfg.get(tier, {})
        cases = q.get("cases", 100000 if tier == "quick" else 100000000)
        secs = q.get("seconds", 40 if tier == "quick" else 300)
        stats = os.path.join(out, "stats.json")
        r = subprocess.run([exe, "--cases", str(cases), "--seconds", str(secs), "--seed", str(seed), "--jobs", "8",
                            "--scratch", out, "--replays", replays, "--stats", stats], env=env,
                           stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1) or not os.path.exists(stats):
            print("CHECK FAILED: driver exit status", r.returncode)
            return 2
        st = json.load(open(stats))
        rc = r.returncode
        fuzz_info = None
        if tier == "thorough" and rc == 0 and cfg.get("fuzz", True):
            rc, fuzz_info = run_fuzzer(cfg, pid, out, exe, env, seed, q.get("fuzz_seconds", 180), replays)
        cov = {"evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"],
               "rule": st["rule"], "samples": st["samples"][:8],
               "explicit_cases": st["fixed_cases"], "nontrivial": st["nontrivial"], "classes": st["classes"],
               "largest_choice_count": st["max_choices"], "failures_not_reproduced": st["unreproduced"]}
        if fuzz_info:
            cov["coverage_guided"] = fuzz_info
            cov["evaluations"] += fuzz_info.get("executions", 0)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "build_s": round(tbuild, 2), "violations": 1 if rc else 0}
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return rc
    finally:
        if not keep:
            shutil.rmtree(out, ignore_errors=True)
            try:
                os.rmdir(bdir)
            except OSError:
                pass


def run_fuzzer(cfg, pid, out, exe, env, seed, secs, replays):
    fz = build(cfg, out, fuzz=True)
    corpus = os.path.join(out, "corpus")
    art = os.path.join(out, "artifacts")
    os.makedirs(corpus)
    os.makedirs(art)
    fenv = dict(env)
    procs, logs = [], []
    # several independent single-process fuzzers over one shared corpus directory: deterministic start, no fork server
    for k in range(8):
        lf = open(os.path.join(out, "fuzz%d.log" % k), "w")
        logs.append(lf.name)
        procs.append(subprocess.Popen([fz, corpus, "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % secs,
                                       "-max_len=2048", "-timeout=60", "-rss_limit_mb=3500", "-reload=1",
                                       "-use_value_profile=%d" % (k % 2), "-artifact_prefix=" + art + "/%d-" % k,
                                       "-print_final_stats=1"], stdout=lf, stderr=lf, env=fenv, cwd=out))
        lf.close()
    rc = 0
    for p in procs:
        try:
            p.wait(timeout=secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
    info = {"seconds": secs, "executions": 0, "processes": 8, "corpus": len(os.listdir(corpus)), "edges": 0}
    for l in logs:
        for line in open(l, errors="replace"):
            if "stat::number_of_executed_units" in line:
                info["executions"] += int(line.split()[-1])
            if " cov: " in line:
                try:
                    info["edges"] = max(info["edges"], int(line.split(" cov: ")[1].split()[0]))
                except ValueError:
                    pass
    for a in sorted(glob.glob(art + "/*")):
        if os.path.basename(a).split("-", 1)[1].startswith(("oom-", "slow-unit")):
            continue
        r = subprocess.run([exe, "--fuzz-artifact", a, "--scratch", out, "--replays", replays, "--seed", str(seed)],
                           env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        if r.returncode == 1:
            sys.stdout.write(r.stdout)
            rc = 1
            break
    print("%s: coverage-guided: %d executions, %d corpus entries, %d edges" %
          (pid, info["executions"], info["corpus"], info["edges"]))
    return rc, info


if __name__ == "__main__":
    sys.exit(main())
