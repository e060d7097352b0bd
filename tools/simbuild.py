#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree: real libiff, iffjoin and iffpp code, instrumented, with its
file, allocation, locking and exit calls bound to the simulated machine (sim/rt.cc)."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
CACHE = os.path.join(VERIF, "build")
CLANG, CLANGXX = "/usr/bin/clang", "/usr/bin/clang++"
HARNESS = ["model.cc", "rt.cc", "plan.cc", "gen.cc", "exec.cc", "main.cc"]
SEAM = """malloc calloc realloc reallocarray free strdup strndup asprintf vasprintf aligned_alloc posix_memalign
fopen fopen64 open open64 creat fdopen close read write lseek freopen fclose fread fwrite fgetc getc fputc putc ungetc fseek fseeko ftell ftello feof ferror fflush
rewind setvbuf fileno fsync isatty remove unlink rename access stat lstat fstat realpath truncate ftruncate tmpfile mkstemp exit abort sleep usleep
pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once call_once""".split()
COV = "trace-pc-guard,trace-loads,trace-stores"
REPOFLAGS = ["-O1", "-fno-inline", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize-coverage=" + COV, "-w",
             "-DHAVE_GETOPT_H=1", '-DPACKAGE_NAME="libiff"', '-DPACKAGE_VERSION="0.1"', "-DHAVE_STDIO_H=1",
             "-DHAVE_STDLIB_H=1", "-DHAVE_STRING_H=1", "-DHAVE_STDINT_H=1", "-DHAVE_UNISTD_H=1", "-DSTDC_HEADERS=1"]
HFLAGS = ["-std=c++17", "-O2", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-Wall", "-Wno-unused-parameter"]


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def build(dest, repo=None, quiet=True, cov=None):
    """Builds the simulator into directory dest (created, wiped) and returns the path of the program."""
    repo = repo or REPO
    src = os.path.join(dest, "src")
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(src)
    for d in ("libiff", "iffjoin", "iffpp"):
        os.makedirs(os.path.join(src, d))
        for f in glob.glob(os.path.join(repo, "src", d, "*.[ch]")) + glob.glob(os.path.join(repo, "src", d, "*.h.in")):
            shutil.copy(f, os.path.join(src, d))
    lib = os.path.join(src, "libiff")
    t = open(os.path.join(lib, "ifftypes.h.in")).read()
    big = "1" if sys.byteorder == "big" else "0"
    open(os.path.join(lib, "ifftypes.h"), "w").write(t.replace("@IFF_BIG_ENDIAN@", big))
    redef = os.path.join(dest, "redefine")
    open(redef, "w").write("".join("%s sim_%s\n" % (s, s) for s in SEAM))
    jobs, objs = [], []
    for d, main in (("libiff", None), ("iffjoin", "iffjoin_main"), ("iffpp", "iffpp_main")):
        for c in sorted(glob.glob(os.path.join(src, d, "*.c"))):
            o = os.path.join(dest, d + "-" + os.path.basename(c)[:-2] + ".o")
            cmd = [CLANG] + REPOFLAGS + ["-I" + os.path.join(src, d), "-I" + lib] + (["-Dmain=" + main] if main else []) + ["-c", c, "-o", o]
            objs.append(o)
            jobs.append((cmd, o))

    def one(j):
        run(j[0])
        # the code's writable data goes to sections of its own, so that the simulator can watch and restore it
        ren = set()
        for l in subprocess.run(["objdump", "-h", j[1]], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
            w = l.split()
            if len(w) > 3 and w[0].isdigit():
                if w[1] == ".data" or w[1].startswith(".data.") and not w[1].startswith(".data.rel.ro"):
                    ren.add(w[1] + "=libdata")
                elif w[1] == ".bss" or w[1].startswith(".bss."):
                    ren.add(w[1] + "=libbss")
        run(["objcopy", "--redefine-syms=" + redef] + sum((["--rename-section", r] for r in sorted(ren)), []) + [j[1]])

    hs = [os.path.join(VERIF, "sim", f) for f in HARNESS]
    hdrs = glob.glob(os.path.join(VERIF, "sim", "*.h")) + glob.glob(os.path.join(lib, "*.h")) + [os.path.join(src, "iffjoin", "join.h"), os.path.join(src, "iffpp", "pp.h")]
    key = digest(hs + [h for h in hdrs if os.path.exists(h)], " ".join(HFLAGS))
    hdir = os.path.join(CACHE, "h-" + key)
    hjobs = []
    if not all(os.path.exists(os.path.join(hdir, f[:-3] + ".o")) for f in HARNESS):
        try:
            os.makedirs(CACHE, exist_ok=True)
            tmp = os.path.join(CACHE, "tmp-%d" % os.getpid())
            os.makedirs(tmp)
        except OSError:
            tmp = os.path.join(dest, "h")
            os.makedirs(tmp)
        for f in HARNESS:
            hjobs.append([CLANGXX] + HFLAGS + ["-I" + lib, "-c", os.path.join(VERIF, "sim", f), "-o", os.path.join(tmp, f[:-3] + ".o")])
    else:
        tmp = None
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, j) for j in hjobs] + [ex.submit(one, j) for j in jobs]
        for f in fs:
            f.result()
    if tmp:
        if tmp.startswith(CACHE):
            try:
                os.rename(tmp, hdir)
            except OSError:
                if not os.path.isdir(hdir):
                    hdir = tmp
                else:
                    shutil.rmtree(tmp, ignore_errors=True)
        else:
            hdir = tmp
    prog = os.path.join(dest, "sim")
    run([CLANGXX, "-fsanitize=address", "-no-pie", "-o", prog] + [os.path.join(hdir, f[:-3] + ".o") for f in HARNESS] + objs + ["-lpthread"])
    return prog


if __name__ == "__main__":
    dest = sys.argv[1] if len(sys.argv) > 1 else os.path.join(CACHE, "cur")
    try:
        print(build(dest, sys.argv[2] if len(sys.argv) > 2 else None))
    except BuildError as e:
        print(e)
        sys.exit(2)
