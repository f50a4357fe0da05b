"""Builds the tree under test (/repo's working tree) and the monitors.

Everything is compiled from source on each change: objects are cached under a
hash of the compiler flags and of the whole content of include/ and source/ (or
of the harness), so a change in the tree always gives new objects.
"""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

SHIM = os.path.join(HARNESS, "islshim.c")
MEM = os.path.join(HARNESS, "memshim.c")
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("isl_set_coalesce", "malloc", "calloc", "realloc", "free", "strdup", "strndup",
    "__gmpz_init", "__gmpz_init_set", "__gmpz_init_set_si", "__gmpz_clear"))

CONFIGS = {
    # name: (cc, cxx, flags for both, link flags)
    "plain": ("gcc", "g++", ["-O2", "-g1"], []),
    "asan": ("clang", "clang++", ["-O1", "-g1", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-sanitize=vptr,function"], ["-fsanitize=address,undefined"]),
    "tsan": ("clang", "clang++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "vg": ("gcc", "g++", ["-O1", "-g"], []),
    "cov": ("gcc", "g++", ["-O0", "-g1", "--coverage"], ["--coverage", "-Wl,-u,__gcov_dump"]),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    mk = _read(os.path.join(REPO, "Makefile.am")).decode()
    m = re.search(r"SOURCES_CORE\s*=((?:.*\\\n)*.*\n)", mk)
    core = re.findall(r"source/[\w/]+\.c", m.group(1)) if m else []
    m = re.search(r"libcloog_isl_la_SOURCES\s*=((?:.*\\\n)*.*\n)", mk)
    core += re.findall(r"source/[\w/]+\.c", m.group(1)) if m else []
    core = [c for c in dict.fromkeys(core)
            if c not in ("source/version.c", "source/mp_get_memory_functions.c")
            and os.path.exists(os.path.join(REPO, c))]
    if len(core) < 10:
        core = sorted(os.path.relpath(f, REPO) for f in
                      glob.glob(os.path.join(REPO, "source/*.c")) + glob.glob(os.path.join(REPO, "source/isl/*.c"))
                      if os.path.basename(f) not in ("cloog.c", "version.c", "mp_get_memory_functions.c"))
    return core


def tree_hash():
    h = hashlib.sha256()
    for base in ("include", "source"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".in")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0" + _read(p) + b"\0")
    h.update(_read(os.path.join(REPO, "Makefile.am")))
    return h.hexdigest()[:20]


def gen_headers(out):
    inc = os.path.join(out, "include", "cloog")
    os.makedirs(inc, exist_ok=True)
    txt = _read(os.path.join(REPO, "include/cloog/int.h.in")).decode()
    open(os.path.join(inc, "int.h"), "w").write(re.sub(r"@[A-Z_]*INT[A-Z_]*@", "CLOOG_INT_GMP", txt))
    vin = os.path.join(REPO, "include/cloog/version.h.in")
    if os.path.exists(vin):
        t = _read(vin).decode()
        for k, v in (("MAJOR", "0"), ("MINOR", "21"), ("REVISION", "1")):
            t = re.sub(r"@[A-Za-z_]*%s[A-Za-z_]*@" % k, v, t, flags=re.I)
        open(os.path.join(inc, "version.h"), "w").write(t)
    open(os.path.join(out, "version.h"), "w").write('#define CLOOG_HEAD "0.21.1-verif"\n')
    v = _read(os.path.join(REPO, "source/version.c.in")).decode()
    v = v.replace("@BITS@", "gmp")
    open(os.path.join(out, "version.c"), "w").write(v)


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def prune(prefix, keep):
    olds = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime)
    for d in olds[:-4]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def build_lib(cfg):
    """Static library of the tree, and the command-line tool. Returns the dir."""
    cc, cxx, fl, ld = CONFIGS[cfg]
    th = tree_hash()
    key = hashlib.sha256((th + repr(CONFIGS[cfg]) + _read(SHIM).decode() + _read(MEM).decode() + WRAP).encode()).hexdigest()[:12]
    out = os.path.join(BUILD, "lib-%s-%s" % (cfg, key))
    if os.path.exists(os.path.join(out, "OK")):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    gen_headers(tmp)
    srcs = [os.path.join(REPO, s) for s in sources()]
    flags = fl + ["-w", "-DCLOOG_RUSAGE=", "-DISL_USING_GMP_VAL=1", "-DHAVE_DECL_MP_GET_MEMORY_FUNCTIONS=1", "-I" + tmp, "-I" + os.path.join(tmp, "include"), "-I" + os.path.join(REPO, "include")]

    def one(src):
        if src == os.path.join(tmp, "version.c"):
            o = os.path.join(tmp, "version.o")
        elif src in (SHIM, MEM):
            o = os.path.join(tmp, os.path.basename(src)[:-2] + ".o")
        else:
            o = os.path.join(tmp, os.path.relpath(src, REPO).replace("/", "_")[:-2] + ".o")
        run([cc, "-c"] + flags + ["-o", o, src])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs + [os.path.join(tmp, "version.c"), SHIM, MEM, os.path.join(REPO, "source/cloog.c")]))
    main = objs.pop()
    run(["ar", "rcs", os.path.join(tmp, "libcloog.a")] + objs)
    run([cc] + fl + [main] + objs + ["-o", os.path.join(tmp, "cloog")] + ld + [WRAP, "-lisl", "-lgmp", "-lpthread"])
    open(os.path.join(tmp, "OK"), "w").write("ok")
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    prune("lib-" + cfg, out)
    return out


def build_mon(cfg, units=None):
    """The monitor program linked against the tree. Returns its path."""
    lib = build_lib(cfg)
    cc, cxx, fl, ld = CONFIGS[cfg]
    h = hashlib.sha256(lib.encode())
    files = sorted(glob.glob(os.path.join(HARNESS, "*.h")) + glob.glob(os.path.join(HARNESS, "*.cpp")))
    for f in files:
        h.update(os.path.basename(f).encode() + _read(f))
    out = os.path.join(BUILD, "mon-%s-%s" % (cfg, h.hexdigest()[:12]))
    exe = os.path.join(out, "mon")
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    cfl = [f for f in fl if not f.startswith("-O") and f != "--coverage"] + ["-O1", "-std=c++17", "-w",
          "-I" + lib, "-I" + os.path.join(lib, "include"), "-I" + os.path.join(REPO, "include")]
    cpps = [f for f in files if f.endswith(".cpp")]

    def one(src):
        o = os.path.join(tmp, os.path.basename(src)[:-4] + ".o")
        run([cxx, "-c"] + cfl + ["-o", o, src])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, cpps))
    run([cxx] + fl + objs + ["-rdynamic", os.path.join(lib, "libcloog.a"), "-o", os.path.join(tmp, "mon")] + ld + [WRAP, "-lisl", "-lgmp", "-lpthread"])
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    prune("mon-" + cfg, out)
    return exe


if __name__ == "__main__":
    for c in sys.argv[1:] or ["plain", "asan"]:
        print(build_lib(c))
