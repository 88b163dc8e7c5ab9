#!/usr/bin/env python3
"""Builds simulation binaries from the working tree of /repo (never writes there)."""
import hashlib, os, re, subprocess, sys, glob, concurrent.futures as cf, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LIB842_REPO", "/repo")
B = os.path.join(V, "build")

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        sys.exit(3)
    return r.stdout

def config_h():
    """lib842/config.h from the template, with everything available"""
    d = os.path.join(B, "gen", "lib842")
    os.makedirs(d, exist_ok=True)
    out = []
    for l in open(os.path.join(REPO, "include/lib842/config.h.in")):
        w = l.split()
        if len(w) >= 2 and w[0] == "#cmakedefine":
            on = "AIX" not in w[1] and "CUDA" not in w[1]
            out.append("#define %s\n" % w[1] if on else "/* #undef %s */\n" % w[1])
        else:
            out.append(l)
    put(os.path.join(d, "config.h"), "".join(out))
    sd = os.path.join(B, "gen", "uthash", "src")
    os.makedirs(sd, exist_ok=True)
    for h in ("uthash.h", "utlist.h"):
        src = os.path.join(REPO, "src/serial/uthash/src", h)
        if not os.path.exists(src):
            src = "/usr/include/" + h
        put(os.path.join(sd, h), open(src).read())

def put(path, txt):
    if os.path.exists(path) and open(path).read() == txt:
        return
    with open(path, "w") as f:
        f.write(txt)

def c2str(name, text):
    """A C string constant holding text (what the repository's cl2c tool makes)"""
    body = "".join("\\x%02x" % b if (b < 32 or b > 126 or b in (34, 92, 63)) else chr(b) for b in text.encode())
    lines = []
    out = ""
    # one literal per source line keeps hex escapes from running together
    for ln in text.split("\n"):
        esc = "".join({'"': '\\"', '\\': '\\\\', '\t': '\\t', '?': '\\?'}.get(ch, ch) for ch in ln)
        lines.append('"%s\\n"' % esc)
    return "const char *const %s =\n%s;\n" % (name, "\n".join(lines))

def cuda_ptx():
    """src/cuda compiled for the device by clang, as C source; nvcc's dialect is mapped where clang's differs"""
    g = os.path.join(B, "gen", "cuda")
    os.makedirs(os.path.join(g, "src", "cuda"), exist_ok=True)
    os.makedirs(os.path.join(g, "inc", "lib842"), exist_ok=True)
    # (a '%' not followed by a digit stands for itself in nvcc's inline assembly)
    fix = lambda t: re.sub(r'"(?:\\.|[^"\\\n])*"', lambda m: re.sub(r"%(?=[A-Za-z_])", "%%", m.group(0)), t)
    out, size = [], None
    for cu in srcs("src/cuda/*.cu"):
        p = os.path.join(g, os.path.basename(cu))
        put(p, fix(open(cu).read()))
        cfg = open(os.path.join(B, "gen", "lib842", "config.h")).read()
        put(os.path.join(g, "inc", "lib842", "config.h"), cfg + "\n#define LIB842_HAVE_CUDA\n")
        cc = ["clang++", "-x", "cuda", "--cuda-device-only", "--cuda-gpu-arch=sm_50", "-nocudainc", "-nocudalib", "-fdeclspec", "-std=c++17", "-O2", "-w",
              "-D__restrict__=", "-I" + os.path.join(g, "inc"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/cuda"),
              "-include", os.path.join(V, "stubs/cuda_device.h"), p]
        sh(cc + ["-mllvm", "-inline-threshold=1000000", "-S", "-o", p + ".ptx"])
        out.append(open(p + ".ptx").read())
    pr = sh(["clang", "-x", "c", "-E", "-P", "-D__global__=", "-D__restrict__=", "-I" + os.path.join(g, "inc"), "-I" + os.path.join(REPO, "include"), "-include", "lib842/cuda.h",
             os.path.join(V, "stubs/cuda_size.h")])
    size = re.search(r"SIM_SIZE\s+(.*)", pr).group(1)
    return c2str("cuda842_ptx", "".join(out)) + "const int cuda842_chunk_size = %s;\n" % size

DEFS_CL = ["-DCL_TARGET_OPENCL_VERSION=120", "-DCL_HPP_MINIMUM_OPENCL_VERSION=120",
           "-DCL_HPP_TARGET_OPENCL_VERSION=120", "-DCL_HPP_ENABLE_EXCEPTIONS"]

def inc():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(B, "gen"), "-I" + os.path.join(V, "stubs")]

TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
ASAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

def compile_all(jobs):
    """jobs: (src, obj, flags); recompiled when anything it could depend on changed"""
    dep = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(REPO, "sample"), os.path.join(V, "sim"), os.path.join(V, "harness"), os.path.join(V, "stubs"), os.path.join(B, "gen")):
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                dep.update(p.encode()); dep.update(open(p, "rb").read())
    base = dep.hexdigest()
    def one(j):
        src, obj, flags = j
        cc = "clang" if src.endswith(".c") else "clang++"
        std = [] if not src.endswith(".cpp") else ["-std=c++17"]
        if src.endswith(".c"): std = ["-std=gnu11"]
        # (uninitialised locals of the library get a fixed, implausible value)
        cmd = [cc] + std + ["-g1", "-march=native", "-w"] + (["-ftrivial-auto-var-init=pattern"] if src.startswith(REPO) else []) + flags + inc() + ["-c", src, "-o", obj]
        key = hashlib.sha256((base + " ".join(cmd)).encode()).hexdigest()
        kf = obj + ".key"
        if os.path.exists(obj) and os.path.exists(kf) and open(kf).read() == key:
            return
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        sh(cmd)
        open(kf, "w").write(key)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))

def srcs(*pats):
    r = []
    for p in pats:
        r += sorted(glob.glob(os.path.join(REPO, p)))
    return r

def objs(tag, sources, flags):
    return [(s, os.path.join(B, tag, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s) + ".o"), flags) for s in sources]

CODEC = ["src/serial/*.c", "src/serial_optimized/*.cpp"]
SIM = [os.path.join(V, "sim", f) for f in ("core.cpp", "threads.cpp", "race.cpp", "alloc.cpp")]

def build(target):
    config_h()
    out = os.path.join(B, target + ".bin")
    link = ["clang++", "-o", out, "-rdynamic"]
    O2 = ["-O2"]
    if target in ("stream", "stream_nd"):
        nd = ["-DNDEBUG"] if target == "stream_nd" else []
        j = objs(target, srcs("src/stream/*.cpp"), ["-O1", "-DLIB842_HAVE_NUMA"] + TSAN + nd)
        j += objs(target, srcs(*CODEC), O2 + nd)
        j += objs(target, SIM, O2) + objs(target, [os.path.join(V, "harness/stream.cpp")], O2 + nd)
        libs = ["-lpthread", "-ldl"]
    elif target == "codec":      # concurrent callers: codecs instrumented
        j = objs(target, srcs(*CODEC), ["-O1"] + TSAN)
        j += objs(target, SIM, O2) + objs(target, [os.path.join(V, "harness/codec.cpp")], O2)
        libs = ["-lpthread", "-ldl"]
    elif target == "store":      # damaged storage, full destinations: AddressSanitizer
        j = objs(target, srcs(*CODEC), ["-O1"] + ASAN)
        j += objs(target, [s for s in SIM if "race" not in s], O2 + ["-DSIM_NOTHREADS"]) + objs(target, [os.path.join(V, "harness/store.cpp")], O2 + ["-DSIM_NOTHREADS"])
        libs = ["-fsanitize=address,bounds", "-lpthread", "-ldl"] + ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "aligned_alloc", "free")]
    elif target == "det":        # what output depends on: uninitialised locals left as they are
        j = objs(target, srcs(*CODEC), ["-O1", "-ftrivial-auto-var-init=uninitialized"])
        j += objs(target, [s for s in SIM if "race" not in s], O2 + ["-DSIM_NOTHREADS"]) + objs(target, [os.path.join(V, "harness/store.cpp")], O2 + ["-DSIM_NOTHREADS"])
        libs = ["-lpthread", "-ldl"] + ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "aligned_alloc", "free")]
    elif target in ("cryptodev", "cryptodev_ns"):   # _ns: kernel module without CIOCGSESSINFO
        ns = ["-DSTUB_NO_SESSINFO"] if target == "cryptodev_ns" else []
        j = objs(target, srcs("src/cryptodev/*.c"), ["-O1"] + TSAN + ns)
        j += objs(target, srcs(*CODEC), O2)
        j += objs(target, SIM, O2) + objs(target, [os.path.join(V, "harness/cryptodev.cpp")], O2 + ns)
        libs = ["-lpthread", "-ldl"] + ["-Wl,--wrap=" + s for s in ("open", "open64", "close", "access", "fcntl", "fcntl64", "ioctl", "fprintf")]
    elif target in ("cl", "clt"):  # cl: AddressSanitizer; clt: simulated threads
        g = os.path.join(B, "gen")
        ksrc = os.path.join(g, "cl842_sources.c")
        put(ksrc, c2str("cl842_real_defs", open(os.path.join(REPO, "src/common/842.h")).read())
                + c2str("cl842_real_kernel", open(os.path.join(REPO, "src/ocl/decompress.cl")).read()))
        thr = target == "clt"
        nt = [] if thr else ["-DSIM_NOTHREADS"]
        sim_ = SIM if thr else [s for s in SIM if "race" not in s]
        j = objs(target, srcs("src/ocl/*.cpp"), ["-O1"] + (TSAN if thr else ASAN) + DEFS_CL)
        j += objs(target, srcs(*CODEC), O2) + [(ksrc, os.path.join(B, target, "sources.o"), ["-O0"])]
        if not thr:              # the OpenCL round-trip program, once per format (and with chunks in another order)
            for v, x in (("a", []), ("m", ["-DUSE_MAYBE_COMPRESSED_CHUNKS"]), ("i", ["-DUSE_INPLACE_COMPRESSED_CHUNKS"]),
                         ("as", ["-DUSE_CHUNK_SHUFFLE_MAP"]), ("is", ["-DUSE_INPLACE_COMPRESSED_CHUNKS", "-DUSE_CHUNK_SHUFFLE_MAP"])):
                ren = ["-D%s=cds_%s_%s" % (f, v, f) for f in ("compress_benchmark_core", "simple_test_core", "main")]
                ren += ["-D%s=cds_%s" % (f, f) for f in ("optsw842_compress", "sw842_compress", "compdecomp")] + ["-include", os.path.join(V, "stubs/program_out.h")]
                j.append((os.path.join(REPO, "sample/compdecomp_cl.cpp"), os.path.join(B, target, "compdecomp_cl_%s.o" % v), ["-O1"] + ASAN + DEFS_CL + ren + x))
        j += objs(target, sim_, O2 + nt) + objs(target, [os.path.join(V, "harness/cl.cpp")], ["-O1"] + nt)
        libs = ["-lpthread", "-ldl"]
        if not thr:
            libs = ["-fsanitize=address,bounds"] + libs + ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "aligned_alloc", "free")]
    elif target == "accel":      # streams over the accelerator implementations
        ax = ["-DLIB842_HAVE_AIX_HWCOMPRESSION", "-I" + os.path.join(V, "stubs", "aix")]
        j = objs(target, srcs("src/stream/*.cpp", "src/cryptodev/*.c"), ["-O1"] + TSAN) + objs(target, srcs("src/aix/*.c"), ["-O1"] + TSAN + ax)
        j += objs(target, srcs(*CODEC), O2)
        j += objs(target, SIM, O2) + objs(target, [os.path.join(V, "harness/accel.cpp")], O2 + ax)
        libs = ["-lpthread", "-ldl"] + ["-Wl,--wrap=" + s for s in ("open", "open64", "close", "access", "fcntl", "fcntl64", "ioctl", "fprintf")]
    elif target == "hls":        # (includes src/hls/*.cpp)
        j = objs(target, srcs(*CODEC), O2) + objs(target, SIM, O2)
        j += objs(target, [os.path.join(V, "harness/hls.cpp")], ["-O1", "-I" + os.path.join(V, "stubs/hls"), "-I" + os.path.join(REPO, "src/hls")])
        libs = ["-lpthread", "-ldl"]
    elif target == "tools":      # the programs that come with the library
        g = os.path.join(B, "gen", "tools_kernel.c")
        put(g, c2str("real_kernel", open(os.path.join(REPO, "src/ocl/decompress.cl")).read()))
        ren = lambda p: ["-Dcompress_benchmark_core=%s_cbc" % p, "-Dsimple_test_core=%s_stc" % p, "-Dcompdecomp=%s_driver" % p, "-Dtimestamp=%s_timestamp" % p,
                         "-Dget_sw842_implementation=sample_sw842_implementation", "-Dmain=%s_main" % p]
        sf = lambda p, f, x: (os.path.join(REPO, f), os.path.join(B, target, p + "_" + os.path.basename(f) + ".o"), ["-O1"] + TSAN + ren(p) + x)
        def prog(p, f):          # main() of a C++ program under a name of its own, whatever its parameters
            w = os.path.join(B, "gen", p + "_program.cpp")
            put(w, '#define main %s_main\n#include "%s"\n#undef main\ntemplate<class A> static int prog(int (*f)(int, A), int c, char **v) { return f(c, (A)v); }\nint %s_run(int c, char **v) { return prog(%s_main, c, v); }\n' % (p, os.path.join(REPO, f), p, p))
            return (w, os.path.join(B, target, p + ".o"), ["-O1", "-ftrivial-auto-var-init=pattern", "-I" + os.path.dirname(os.path.join(REPO, f))] + TSAN + [x for x in ren(p) if not x.startswith("-Dmain")])
        j = objs(target, srcs("src/stream/*.cpp"), ["-O1"] + TSAN) + objs(target, srcs(*CODEC), O2)
        j += [prog("streams", "sample/compdecomp_streams.cpp"), sf("streams", "sample/compdecomp_driver.c", []),
              sf("omp", "sample/compdecomp.c", ["-fopenmp"]), sf("omp", "sample/compdecomp_driver.c", []), prog("cl2c", "src/tools/cl2c.cpp")]
        j += [(g, os.path.join(B, target, "kernel.o"), ["-O0"])]
        j += objs(target, SIM, O2) + objs(target, [os.path.join(V, "harness/tools.cpp")], O2)
        libs = ["-static-libstdc++", "-lpthread", "-ldl"] + ["-Wl,--wrap=" + s for s in ("fopen", "fopen64", "fclose", "fseek", "ftell", "fread", "fileno", "setvbuf", "read", "write", "writev", "lseek64",
                 "printf", "puts", "putchar", "fprintf", "fwrite", "gettimeofday", "getenv")]
    elif target == "cuda":       # the kernel as PTX, executed by the harness's device
        tx = cuda_ptx()
        put(os.path.join(B, "gen", "cuda_ptx.c"), tx)
        j = objs(target, srcs(*CODEC), O2) + [(os.path.join(B, "gen", "cuda_ptx.c"), os.path.join(B, target, "ptx.o"), ["-O0"])]
        j += objs(target, [s for s in SIM if "race" not in s], O2 + ["-DSIM_NOTHREADS"]) + objs(target, [os.path.join(V, "harness/cuda.cpp")], O2 + ["-DSIM_NOTHREADS"])
        libs = ["-lpthread", "-ldl"] + ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "aligned_alloc", "free")]
    else:
        sys.exit("unknown target " + target)
    compile_all(j)
    sh(link + [o for _, o, _ in j] + libs)
    return out

if __name__ == "__main__":
    for t in sys.argv[1:]:
        print(build(t))
