"""Builds libkripto (from /repo's working tree) and the harnesses into /verif/build.
Objects are cached by the content of everything that can influence them."""
import os, sys, glob, hashlib, subprocess, uuid, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
DEFS = "-D_ANSI_SOURCE -D_ISOC99_SOURCE -D_LARGEFILE64_SOURCE -D_FILE_OFFSET_BITS=64 -DKRIPTO_UNIX".split()
INC = ["-I" + REPO + "/include"]
JOBS = max(2, min(16, os.cpu_count() or 4))

def tmpname(p): return "%s.%s.tmp" % (p, uuid.uuid4().hex)

class BuildError(Exception):
    pass

def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))

def lib_sources():
    r = sorted(glob.glob(REPO + "/lib/**/*.c", recursive=True))
    if not r: raise BuildError("no library sources under %s" % REPO)
    return r

def _all_of(d, pats):
    r = []
    for p in pats: r += glob.glob(os.path.join(d, "**", p), recursive=True)
    return r

_hdr = {}
def hdr_digest(kind):
    if kind not in _hdr:
        fs = _all_of(REPO + "/include", ["*.h"]) + _all_of(REPO + "/lib", ["*.h"]) + [ROOT + "/src/portable.h"]
        if kind == "guest": fs += _all_of(ROOT + "/guest", ["*.h"]) + [ROOT + "/src/toyc.h", ROOT + "/src/prim.h", ROOT + "/src/prim_list.inc"]
        if kind == "harness": fs += _all_of(ROOT + "/src", ["*.h", "*.inc"]) + _all_of(ROOT + "/ref", ["*.h", "*.inc"])
        _hdr[kind] = _digest(fs)
    return _hdr[kind]

def compile_many(jobs):
    """jobs: list of (command prefix, source, kind). Returns the object paths."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    out, todo, seen = [], [], set()
    for cmd, src, kind in jobs:
        with open(src, "rb") as f: body = f.read()
        key = hashlib.sha256(repr((cmd, src, hdr_digest(kind))).encode() + body).hexdigest()[:32]
        o = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src).rsplit(".", 1)[0], key)
        out.append(o)
        if not os.path.exists(o) and o not in seen: todo.append((cmd, src, o)); seen.add(o)
    def one(j):
        cmd, src, o = j
        t = tmpname(o)
        run(list(cmd) + ["-c", src, "-o", t]); os.rename(t, o)
    todo.sort(key=lambda j: -os.path.getsize(j[1]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for _ in ex.map(one, todo): pass
    return out

def lib_cmd(cc="gcc", flags=("-O2", "-fPIC", "-fstack-protector-all")):
    # gcc, the project's compiler, only warns about these
    soft = ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types", "return-type")] if cc == "clang" else []
    return [cc, "-std=c99", "-w"] + soft + list(flags) + DEFS + INC + ["-I" + REPO + "/lib"]

def lib_jobs(cc="gcc", flags=("-O2", "-fPIC", "-fstack-protector-all")):
    c = lib_cmd(cc, flags)
    return [(c, s, "lib") for s in lib_sources()]

def harness_jobs(names, cxx="g++", flags=("-O2",)):
    c = [cxx, "-std=c++17", "-w"] + list(flags) + INC
    return [(c, os.path.join(ROOT, n), "harness") for n in names]

REFSRC = ["ref/blocks.cpp", "ref/hashes.cpp", "ref/modes.cpp"]
def srcs(*names): return ["src/%s.cpp" % n for n in names]

def link(out, objs, cxx="g++", flags=()):
    key = hashlib.sha256(repr((cxx, flags, objs)).encode()).hexdigest()[:24]
    p = "%s/%s-%s" % (BUILD, out, key)
    if not os.path.exists(p):
        t = tmpname(p)
        run([cxx] + list(flags) + objs + ["-lm", "-lpthread", "-ldl", "-o", t]); os.rename(t, p)
    return p

PRIM = {"gcc_default": ("gcc", "-O2"), "gcc_O0": ("gcc", "-O0"), "gcc_le": ("gcc", "-O2 -DKRIPTO_LITTLE_ENDIAN"),
        "gcc_portable": ("gcc", "-O2 -DPRIM_PORTABLE"), "gcc_portable_le_O3": ("gcc", "-O3 -DPRIM_PORTABLE -DKRIPTO_LITTLE_ENDIAN"),
        "clang_default": ("clang", "-O2"), "clang_portable_le": ("clang", "-O2 -DPRIM_PORTABLE -DKRIPTO_LITTLE_ENDIAN"),
        "gcc_portable_trap": ("gcc", "-O1 -DPRIM_PORTABLE -fsanitize=undefined -fno-sanitize=shift-base -fsanitize-undefined-trap-on-error"),
        "clang_portable_trap": ("clang", "-O1 -DPRIM_PORTABLE -fsanitize=undefined -fno-sanitize=shift-base -fsanitize-trap=all"),
        "gcc_be_portable": ("gcc", "-O2 -DPRIM_PORTABLE -DKRIPTO_BIG_ENDIAN")}
def prim_jobs():
    return [([cc, "-std=c99", "-w", "-DPRIM_NAME=" + n] + f.split() + DEFS + INC + ["-I" + ROOT + "/src"], ROOT + "/src/prim.c", "harness") for n, (cc, f) in PRIM.items()]

# ---- the library for another processor, run by the emulator of src/emu.cpp ----
# name: (target, processor, linker emulation, flags)
GUESTS = {"mips32_be": ("mips-none-elf", "mips32r2", "elf32btsmip", ["-O2", "-DKRIPTO_BIG_ENDIAN"]),
          "mips32_generic": ("mips-none-elf", "mips32r2", "elf32btsmip", ["-O1", "-DNDEBUG", "-funsigned-char"]),
          "mips32_le": ("mipsel-none-elf", "mips32r2", "elf32ltsmip", ["-Os", "-DKRIPTO_LITTLE_ENDIAN"]),
          "mips64_be": ("mips64-none-elf", "mips64r2", "elf64btsmip", ["-mabi=n64", "-O3", "-DKRIPTO_BIG_ENDIAN"])}
LLD = next((x for x in ("/usr/bin/ld.lld-18", "/usr/bin/ld.lld", "/usr/lib/llvm-18/bin/ld.lld") if os.path.exists(x)), "ld.lld")
def guests(parts, names=None):
    """parts: 'lib' and/or 'prim'. Returns [(name, image path)]; empty if this compiler cannot build for the other processor."""
    names = list(names or GUESTS); jobs, cut = [], []
    for n in names:
        t, cpu, em, fl = GUESTS[n]
        base = ["clang", "--target=" + t, "-mcpu=" + cpu, "-w", "-ffreestanding", "-nostdlibinc", "-msoft-float", "-mno-abicalls", "-fno-pic", "-G0", "-isystem", ROOT + "/guest/include"] + INC + ["-I" + REPO + "/lib"] + fl
        soft = ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types", "return-type")]
        j = [(base + ["-std=c99"], ROOT + "/guest/rt.c", "guest")]
        if "lib" in parts:
            j += [(base + ["-std=c99"] + soft + DEFS, s, "guest") for s in lib_sources()]
            k = [x for x in base if x != "clang"]
            j += [(["clang++"] + k + ["-std=c++17", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-I" + ROOT + "/src"], ROOT + "/src/toyc.cpp", "guest")]
        if "prim" in parts: j += [(base + ["-std=c99", "-DPRIM_NAME=guest", "-I" + ROOT + "/src"], ROOT + "/src/prim.c", "guest")]
        cut.append((len(jobs), len(j))); jobs += j
    try: objs = compile_many(jobs)
    except BuildError as e:
        print("note: the library does not compile for the emulated processor, builds for it are left out: %s" % str(e)[-300:].replace("\n", " | ")); return []
    res = []
    for n, (at, k) in zip(names, cut):
        o = objs[at:at + k]; em = GUESTS[n][2]
        p = "%s/guest_%s-%s.elf" % (BUILD, n, hashlib.sha256(repr((em, o)).encode()).hexdigest()[:24])
        if not os.path.exists(p):
            t = tmpname(p)
            run([LLD, "-m", em, "-Ttext=0x10000", "-e", "g_stop", "--unresolved-symbols=ignore-all", "-o", t] + o); os.rename(t, p)
        res.append((n, p))
    return res

def emulated():
    """library variants whose interface is carried out on the emulated processor"""
    res = []
    for n, image in guests(("lib",)):
        o = compile_many(harness_jobs(["src/mexec.cpp", "src/bind.cpp", "src/emu.cpp"], "g++", ("-O2", "-fPIC")) + [(["g++", "-std=c++17", "-w", "-O2", "-fPIC", '-DVP_IMAGE="%s"' % image] + INC, ROOT + "/src/emu_api.cpp", "harness")] + [(["gcc", "-O2", "-fPIC", "-w"], ROOT + "/src/" + f, "harness") for f in ("emu_syms.c", "hook_plain.c")])
        res.append((n, link("libv_%s.so" % n, o, "g++", ("-shared", "-Wl,-Bsymbolic"))))
    return res

# ---- library variants as shared objects, for the operation-sequence checks ----
MACH = ["mgen", "mload", "variants"]
REDEF_ALLOC = sum((["--redefine-sym", "%s=vp_%s" % (x, x)] for x in "malloc free calloc realloc posix_memalign aligned_alloc".split()), [])
PORT = ["-include", ROOT + "/src/portable.h"]
REDEF_TRACE = sum((["--redefine-sym", "%s=vt_%s" % (x, x)] for x in "memcmp bcmp __memcmpeq strcmp strncmp memchr strlen".split()), [])
def _redef(objs, how):
    out = []
    os.makedirs(BUILD + "/hooked", exist_ok=True)
    REDEF = {"alloc": REDEF_ALLOC, "trace": REDEF_TRACE}[how]
    def one(o):
        t = BUILD + "/hooked/" + how + "-" + os.path.basename(o)
        if not os.path.exists(t):
            q = tmpname(t)
            run(["objcopy"] + REDEF + [o, q]); os.rename(q, t)
        return t
    with cf.ThreadPoolExecutor(JOBS) as ex: return list(ex.map(one, objs))

def _resym(o, tag, syms):
    t = "%s/hooked/%s-%s" % (BUILD, tag, os.path.basename(o))
    if not os.path.exists(t):
        q = tmpname(t); run(["objcopy"] + sum((["--redefine-sym", "%s=%s" % kv] for kv in syms), []) + [o, q]); os.rename(q, t)
    return t

def portable_random(prop):
    """the library built without an operating system interface, its clocks and the generator's key derivation replaced"""
    cc = [x for x in lib_cmd("gcc", ("-O0", "-fno-stack-protector")) if x != "-DKRIPTO_UNIX"]
    oc = [x for x in lib_cmd("gcc", ("-O2", "-fstack-protector-all")) if x != "-DKRIPTO_UNIX"]
    rnd = REPO + "/lib/random.c"; libs = [s for s in lib_sources() if s != rnd]
    slow = ("scrypt", "pbkdf2", "blake2s", "chacha") # much used: optimised
    jobs = [(oc if os.path.basename(s)[:-2] in slow else cc, s, "lib") for s in libs] + [(cc + ["-DKRIPTO_RESEED_OUTPUT=3000"], rnd, "lib"), (oc, rnd, "lib")]
    jobs += [(["gcc", "-O2", "-w"], ROOT + "/src/hook_alloc.c", "harness")] + harness_jobs(["src/engine_main.cpp", "src/engine.cpp", "src/%s.cpp" % prop] + REFSRC)
    objs = compile_many(jobs); n = len(libs) + 2
    lib = _redef(objs[:n], "alloc")
    world = [("time", "vp_time"), ("clock", "vp_clock"), ("kripto_scrypt", "vp_kdf")]
    lib[n - 2] = _resym(lib[n - 2], "world", world)
    lib[n - 1] = _resym(lib[n - 1], "dflt", world + [("kripto_random_" + x, "dflt_" + x) for x in ("create", "gen", "destroy", "test")])
    return link("vp_" + prop, lib + objs[n:], "g++", ("-Wl,-z,now",))

def whole_library():
    """the static and the shared library"""
    objs = compile_many(lib_jobs())
    so = link("libkripto_whole.so", objs, "gcc", ("-shared", "-Wl,--no-undefined"))
    a = so.replace("libkripto_whole.so", "libkripto_whole") + ".a"
    if not os.path.exists(a):
        t = tmpname(a); run(["ar", "rcs", t] + objs); os.rename(t, a)
    return [("a", a), ("so", so)]

def variants(specs):
    """specs: list of (name, cc, cxx, lib flags, harness flags, hooked, link flags). Builds all, returns [(name, path)]."""
    jobs, cut = [], []
    hc = ["gcc", "-O2", "-fPIC", "-w"]
    for name, cc, cxx, lf, hf, hooked, _ in specs:
        a = lib_jobs(cc, tuple(lf) + ("-fPIC", "-fno-omit-frame-pointer"))
        b = harness_jobs(["src/toyc.cpp", "src/mexec.cpp", "src/bind.cpp"], cxx, tuple(hf) + ("-fPIC",))
        c = [(hc, ROOT + "/src/" + ({"alloc": "hook_alloc.c", "trace": "hook_trace.c", "": "hook_plain.c"}[hooked]), "harness")]
        if hooked == "trace": c.append((hc, ROOT + "/src/hook_plain.c", "harness"))
        cut.append((len(jobs), len(a) + (hooked == "alloc"), len(a) + len(b) + len(c))); jobs += a + b + c
    objs = compile_many(jobs)
    res = []
    def one(k):
        name, cc, cxx, lf, hf, hooked, ln = specs[k]; at, nl, nt = cut[k]
        o = objs[at:at + nt]
        if hooked: o = _redef(o[:nl], hooked) + o[nl:]
        return name, link("libv_" + name + ".so", o, cxx, ("-shared", "-Wl,-Bsymbolic") + tuple(ln))
    with cf.ThreadPoolExecutor(JOBS) as ex: return list(ex.map(one, range(len(specs))))

UB = ["-fsanitize=undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"]
