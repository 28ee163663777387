#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
Rebuilds what it needs from /repo's working tree, searches for a violation of the
property, writes evidence/<property>.json.  Exit 0: held.  1: VIOLATION.  2: could not run."""
import os, sys, json, time, shutil, subprocess, argparse, tempfile
import vpbuild as B

CORE = ["main", "engine", "bind", "big", "toyc", "toy", "maccfg", "streamcfg", "aecfg"]
def plain(*props):
    def build():
        jobs = B.lib_jobs() + B.harness_jobs(B.srcs(*CORE) + B.srcs(*props) + B.REFSRC)
        return B.link("vp_" + "_".join(props), B.compile_many(jobs))
    return build

def prim():
    return B.link("vp_prim", B.compile_many(B.prim_jobs() + B.harness_jobs(["src/engine_main.cpp", "src/engine.cpp", "src/emu.cpp", "src/p_prim.cpp"]))), B.guests(("prim",))

def kdf(): return plain("p_kdf", "emu")(), B.guests(("lib",), ("mips32_be", "mips32_le", "mips64_be"))

def portable(): return B.portable_random("p_gen")

def headers():
    exe = B.link("vp_p_head", B.compile_many(B.harness_jobs(["src/engine_main.cpp", "src/engine.cpp", "src/p_head.cpp"])))
    return exe, [("inc", B.REPO + "/include")] + B.whole_library()

def machine(prop, specs, cxx="g++", link=(), emulated=False):
    """one stage: an executable over the plain library plus instrumented variants"""
    def build():
        vs = B.variants(specs) + (B.emulated() if emulated else [])
        jobs = B.lib_jobs() + B.harness_jobs(B.srcs(*CORE) + B.srcs(*B.MACH) + B.srcs(prop) + B.REFSRC)
        return B.link("vp_%s_%s" % (prop, specs[0][0]), B.compile_many(jobs), cxx, tuple(link)), vs
    return build
ASAN = ("asan", "clang", "clang++", ["-O1", "-g", "-fsanitize=address"] + B.UB, ["-O1", "-g", "-fsanitize=address"], "alloc", ["-fsanitize=address,undefined"])
MSAN = ("msan", "clang", "clang++", ["-O1", "-g", "-fsanitize=memory"], ["-O1", "-g", "-fsanitize=memory"], "", ["-fsanitize=memory"])

ERASE = [("gcc", "gcc", "g++", ["-O2", "-fstack-protector-all"], ["-O2"], "alloc", []), ("clang", "clang", "g++", ["-O2"], ["-O2"], "alloc", []), ("gccO3", "gcc", "g++", ["-O3", "-DNDEBUG"], ["-O2"], "alloc", [])]

NOW = ["-Wl,-z,now"]
TRACE = ["-fsanitize-coverage=trace-pc"]
CMP = [("gcc", "gcc", "g++", ["-O2", "-fstack-protector-all"], ["-O2"], "", NOW), ("gccO3", "gcc", "g++", ["-O3"], ["-O2"], "", NOW), ("gccO0", "gcc", "g++", ["-O0"], ["-O2"], "", NOW), ("clang", "clang", "g++", ["-O2"], ["-O2"], "", NOW), ("clangO3", "clang", "g++", ["-O3", "-march=native"], ["-O2"], "", NOW),
       ("gcc_path", "gcc", "g++", ["-O2"] + TRACE, ["-O2"], "trace", NOW), ("gccO1_path", "gcc", "g++", ["-O1"] + TRACE, ["-O2"], "trace", NOW), ("clang_path", "clang", "g++", ["-O2"] + TRACE, ["-O2"], "trace", NOW)]

PLAIN = ("gcc", "gcc", "g++", ["-O2", "-fstack-protector-all"], ["-O2"], "", [])
TSAN = ("tsan", "clang", "clang++", ["-O0", "-g", "-fsanitize=thread"], ["-O1", "-g", "-fsanitize=thread"], "", ["-fsanitize=thread"])

LE = ["-DKRIPTO_LITTLE_ENDIAN"]
def conf(name, cc, flags): return (name, cc, "g++", flags, ["-O2"], "", [])
CONF = [PLAIN, conf("gcc_le", "gcc", ["-O2"] + LE), conf("gcc_portable", "gcc", ["-O2"] + B.PORT), conf("gcc_portable_le_O3", "gcc", ["-O3"] + LE + B.PORT), conf("gcc_O0", "gcc", ["-O0"]), conf("gcc_Os_ndebug", "gcc", ["-Os", "-DNDEBUG"]),
        conf("gcc_O3_ndebug_native", "gcc", ["-O3", "-DNDEBUG", "-march=native", "-D_FORTIFY_SOURCE=2"]), conf("gcc_O1_pattern", "gcc", ["-O1", "-ftrivial-auto-var-init=pattern"]),
        conf("clang", "clang", ["-O2"]), conf("clang_portable", "clang", ["-O1"] + B.PORT), conf("clang_O3_le_ndebug", "clang", ["-O3", "-DNDEBUG", "-march=native"] + LE), conf("clang_O0_zero", "clang", ["-O0", "-ftrivial-auto-var-init=zero"])]

# property: (builder, quick time guard, thorough time guard, level)
STACK = [("gcc_O0_stack", "gcc", "g++", ["-O0", "-fno-stack-protector"], ["-O2"], "alloc", ["-Wl,-z,now"])]

CHECKS = {
    "C01": (plain("p_block"), 200, 3000), "C02": (plain("p_block"), 200, 3000), "C03": (plain("p_block"), 200, 3000),
    "C04": (plain("p_hash"), 200, 3000), "C05": (plain("p_hash"), 200, 3000),
    "C06": (plain("p_mac"), 200, 3000), "C07": (plain("p_mac"), 200, 3000),
    "C08": (plain("p_stream"), 200, 3000), "C09": (plain("p_stream"), 200, 3000),
    "C10": (plain("p_ae"), 200, 3000), "C11": (plain("p_ae"), 200, 3000),
    "C12": (kdf, 200, 3000),
    "C20": (machine("p_config", CONF, emulated=True), 200, 3000),
    "C21": (prim, 200, 3000),
    "C13": (plain("p_misc"), 200, 3000), "C22": (plain("p_misc"), 200, 3000),
    "C14": ([machine("p_safe", [ASAN], "clang++", ["-fsanitize=address,undefined"]), machine("p_safe", [MSAN], "clang++", ["-fsanitize=memory"])], 200, 3000),
    "C15": (machine("p_fault", [ASAN], "clang++", ["-fsanitize=address,undefined"]), 200, 3000),
    "C16": (machine("p_erase", ERASE), 200, 3000),
    "C17": (machine("p_cmp", CMP), 200, 3000),
    "C18": ([machine("p_conc", [PLAIN]), machine("p_conc", [TSAN, PLAIN], "clang++", ["-fsanitize=thread"])], 200, 3000),
    "C23": (machine("p_stack", STACK), 200, 3000),
    "C19": (plain("p_rand"), 200, 3000),
    "C24": (portable, 200, 3000),
    "C25": (headers, 200, 3000),
}
LEVEL = {"C15": "fault_enumeration"}

def known_findings(prop):
    """lines 'finding: property=<id> key=<key> <what fails>' of known_findings.txt"""
    out, pre = {}, "finding: property=%s key=" % prop
    try:
        for l in open(os.path.join(B.ROOT, "known_findings.txt")):
            if l.startswith(pre):
                k, _, t = l.strip()[len(pre):].partition(" "); out[k] = t
    except FileNotFoundError: pass
    return out

def merge(rs):
    """one result out of several stages"""
    r = rs[0]
    for q in rs[1:]:
        for k in ("evaluations", "planned", "systematic"): r[k] += q[k]
        # the same rule generates the same cases in every stage
        if q["rule"] == r["rule"]: r["distinct_nontrivial"] = max(r["distinct_nontrivial"], q["distinct_nontrivial"])
        else: r["distinct_nontrivial"] += q["distinct_nontrivial"]
        for k in ("samples", "unreproduced"): r[k] += q[k]
        r["cut_by_time"] = r["cut_by_time"] or q["cut_by_time"]
        for k, v in q["labels"].items(): r["labels"][k] = r["labels"].get(k, 0) + v
        if q["rule"] != r["rule"]: r["rule"] += " / " + q["rule"]
        if q["assume"] and q["assume"] not in r["assume"]: r["assume"] += " " + q["assume"]
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1")); ap.add_argument("--replay"); ap.add_argument("--scale", default="1")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try: seed = int(a.seed)
    except ValueError: seed = 1
    if a.prop == "setup":
        done = set()
        for bs, _, _ in CHECKS.values():
            for b in bs if isinstance(bs, list) else [bs]:
                if id(b) not in done: done.add(id(b)); b()
        print("built"); return 0
    if a.prop not in CHECKS: print("unknown property", a.prop); return 2
    build, tq, tt = CHECKS[a.prop]
    t0 = time.time()
    os.makedirs(B.BUILD, exist_ok=True); os.makedirs(B.ROOT + "/evidence", exist_ok=True); os.makedirs(B.ROOT + "/out", exist_ok=True)
    stages = build if isinstance(build, list) else [build]
    try: exes = [b() for b in stages]
    except B.BuildError as e:
        print("build failed:", e); return 2
    tb = time.time() - t0
    known = known_findings(a.prop)
    guard = (tt if tier == "thorough" else tq) / len(exes)
    results = []
    for n, exe in enumerate(exes):
        if a.replay and len(exes) > 1 and (".s%d.json" % n) not in a.replay: continue
        tmp = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
        out = tmp + "/result.json"
        env = dict(os.environ, VP_REPLAY_DIR=B.ROOT + "/out", LC_ALL="C", VP_REPLAY_SUFFIX=".s%d" % n if len(exes) > 1 else "",
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:malloc_context_size=3:quarantine_size_mb=32:symbolize=0:detect_stack_use_after_return=1",
                   MSAN_OPTIONS="symbolize=0", UBSAN_OPTIONS="symbolize=0", TSAN_OPTIONS="symbolize=1:halt_on_error=1:exitcode=66:report_signal_unsafe=0")
        if isinstance(exe, tuple):
            exe, vs = exe
            env["VP_VARIANTS"] = ";".join("%s=%s" % v for v in vs)
        cmd = [exe, "--prop", a.prop, "--tier", tier, "--seed", str(seed), "--out", out, "--tmp", tmp, "--time", str(guard), "--scale", a.scale]
        if known: cmd += ["--known", ",".join(known)]
        if a.replay: cmd += ["--replay", a.replay]
        try:
            rc = subprocess.call(cmd, env=env)
            if a.replay: return rc
            if rc not in (0, 1) or not os.path.exists(out):
                print("the harness ended with status", rc); return 2
            results.append(json.load(open(out)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if rc: break
    if not results: print("no stage to replay in"); return 2
    r = merge(results)
    cov = {k: r[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "labels", "planned", "cut_by_time", "unreproduced")}
    cov["systematic_cases"] = r["systematic"]
    for k, t in known.items():
        if r["labels"].get("known finding: " + k): print("KNOWN-FINDING: property=%s %s" % (a.prop, t))
    ass = ["x86-64 Linux, gcc/clang as installed"]
    if r["assume"]: ass.append(r["assume"])
    ev = dict(property=a.prop, tier=tier, seed=seed, level=LEVEL.get(a.prop, "exploration"), coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=rc)
    with open("%s/evidence/%s.json" % (B.ROOT, a.prop), "w") as f: json.dump(ev, f, indent=1)
    return rc

if __name__ == "__main__": sys.exit(main())
