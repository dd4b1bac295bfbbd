"""Builds the simulator and the code under test from /repo's current working tree."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("BF_BUILD", os.path.join(HERE, "build"))

# libc names that reach the outside world, time, memory or other threads: all go to the simulator
NAMES = """__assert_fail _exit abort access alarm aligned_alloc atexit calloc chmod clock clock_gettime close closedir creat
environ exit fdatasync fdopen fileno fopen fork free freopen fstat fsync ftruncate getchar getcwd getenv gethostname getopt getpid
getppid gettimeofday isatty kill link lseek lstat malloc mkdir nanosleep open opendir optarg opterr optind optopt perror popen
posix_memalign pread printf pthread_mutex_destroy pthread_mutex_init pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_once putchar puts pwrite raise rand read readdir realloc remove rename rewinddir rmdir scandir scanf sched_yield setenv
sigaction signal sleep srand stat stderr stdin stdout strdup strndup sync system time tmpfile truncate umask unlink usleep utime utimes
vprintf write gsl_rng_alloc gsl_rng_free""".split()
ALIAS = {"fopen64": "fopen", "open64": "open", "creat64": "creat", "lseek64": "lseek", "stat64": "stat", "lstat64": "lstat",
         "fstat64": "fstat", "scandir64": "scandir", "readdir64": "readdir", "ftruncate64": "ftruncate", "truncate64": "truncate",
         "pread64": "pread", "pwrite64": "pwrite", "freopen64": "freopen", "tmpfile64": "tmpfile", "__isoc99_scanf": "scanf",
         "__isoc23_scanf": "scanf", "__strdup": "strdup", "__environ": "environ", "__clock_gettime": "clock_gettime", "_Exit": "_exit"}
# calls of this kind that the simulator does not provide must not reach the real system
FORBIDDEN = """openat mkdirat unlinkat renameat renameat2 linkat symlink symlinkat mmap munmap msync mkstemp mkostemp mkdtemp mktemp
tmpnam tempnam execve execv execvp execl execlp posix_spawn vfork clone socket connect ioctl fcntl flock lockf statfs fstatfs statvfs
sendfile copy_file_range splice dup dup2 pipe nftw ftw fts_open chdir fchdir chown fchmod chroot mknod mkfifo readlink realpath
fallocate posix_fallocate readv writev preadv pwritev fstatat fdopendir dirfd statx memfd_create pthread_create pthread_join dlopen""".split()

CFLAGS = ["-std=gnu11", "-O1", "-g", "-fPIC", "-fexceptions", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-common",
          "-ftrivial-auto-var-init=pattern", "-w"] + ["-Wno-error=" + w for w in "implicit-function-declaration implicit-int int-conversion incompatible-function-pointer-types return-type".split()]
COV = ["-fsanitize-coverage=trace-loads,trace-stores,edge,trace-pc-guard"]
# stdio calls may leave by an exception (a kill inside a simulated write): keep clang from assuming otherwise
CXXFLAGS = ["-std=c++17", "-O2", "-g1", "-w", "-fno-omit-frame-pointer"] + ["-fno-builtin-" + n for n in "fflush fclose fwrite fread fputs fputc fgetc vfprintf fprintf vfscanf".split()]
CLANG, CLANGXX = "clang", "clang++"
TOOLS = ["copy", "copy-mpi", "cat", "create", "set-attr", "get-attr", "ls", "sample-mpi", "iosim"]


VENV = "/opt/bigfile-venv"
SITE = VENV + "/lib/python3.12/site-packages"
PYINC = ["-I", "/usr/include/python3.12", "-I", SITE + "/numpy/core/include"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources():
    src = glob.glob(REPO + "/src/*.[ch]") + glob.glob(REPO + "/utils/*.[ch]")
    # the engine is compiled against the public headers of the code under test
    sim = glob.glob(SIM + "/*.cpp") + glob.glob(SIM + "/*.h") + glob.glob(SIM + "/include/*.h") + [REPO + "/src/%s.h" % n for n in ("bigfile", "bigfile-mpi", "mp-mpiu")]
    return src, sim


def engine_cmd(d, python=False):
    return [d + ("/pyengine" if python else "/engine"), d]


def pysources():
    return glob.glob(REPO + "/bigfile/*.pyx") + glob.glob(REPO + "/bigfile/*.pxd") + glob.glob(REPO + "/bigfile/*.py"), glob.glob(SIM + "/py/*")


def build(want_cov=False, python=False):
    src, sim = sources()
    simh = tree_hash(sim + [os.path.abspath(__file__)])
    key = tree_hash(src) + "-" + simh[:8] + ("c" if want_cov else "")
    if python:
        key += "p" + tree_hash(sum(pysources(), []))[:10]
    out = os.path.join(BUILD, key)
    if os.path.exists(out + "/ok"):
        return out
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=(os.makedirs(BUILD, exist_ok=True) or BUILD))
    try:
        _build(tmp, simh, want_cov, python)
        open(tmp + "/ok", "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(out + "/ok"):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune(out)
    return out


def prune(keep):
    """Keep the few most recent builds only."""
    ds = [d for d in glob.glob(BUILD + "/*") if os.path.isdir(d) and not os.path.basename(d).startswith(("tmp-", "eng-"))]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-6]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def _build(out, simh, want_cov, python=False):
    redef = out + "/redef"
    with open(redef, "w") as f:
        for n in NAMES:
            f.write("%s sim_%s\n" % (n, n))
        for a, b in ALIAS.items():
            f.write("%s sim_alias_%s\n" % (a, a))
    redefpy = out + "/redef-py"
    with open(redefpy, "w") as f:
        f.write(open(redef).read() + "".join("%s sim_%s\n" % (n, n) for n in ("PyEval_SaveThread", "PyEval_RestoreThread")))
    redefm = out + "/redef-main"
    with open(redefm, "w") as f:
        f.write(open(redef).read() + "main sim_main\n")
    inc = ["-I", SIM + "/include", "-I", REPO + "/src"]
    jobs = []

    def cc(path, obj, extra, main=False, redef=redef):
        def j():
            try:
                run([CLANG] + CFLAGS + extra + inc + ["-c", path, "-o", obj])
            except BuildError:
                # /repo is built with gcc, which accepts more (no preemption at memory accesses then)
                try:
                    run(["gcc"] + [f for f in CFLAGS if f != "-std=gnu11" and not f.startswith("-Wno-error")] + [f for f in extra if f not in COV] + inc + ["-c", path, "-o", obj])
                except (BuildError, OSError):
                    pass
                else:
                    run(["objcopy", "--redefine-syms=" + (redefm if main else redef), obj])
                    return obj
                raise
            run(["objcopy", "--redefine-syms=" + (redefm if main else redef), obj])
            return obj
        return j
    libobjs, covobjs = [], []
    for c in sorted(glob.glob(REPO + "/src/*.c")):
        b = os.path.basename(c)[:-2]
        libobjs.append(out + "/lib-%s.o" % b)
        jobs.append(cc(c, libobjs[-1], []))
        if want_cov:
            covobjs.append(out + "/cov-%s.o" % b)
            jobs.append(cc(c, covobjs[-1], COV))
    toolobjs = {}
    for t in TOOLS:
        p = REPO + "/utils/bigfile-%s.c" % t
        if os.path.exists(p):
            toolobjs[t] = out + "/tool-%s.o" % t
            jobs.append(cc(p, toolobjs[t], [], main=True))
    # the engine does not depend on the code under test
    eng = os.path.join(BUILD, "eng-" + simh)
    engobjs = []
    for c in sorted(glob.glob(SIM + "/*.cpp")):
        b = os.path.basename(c)[:-4]
        o = eng + "/%s.o" % b
        engobjs.append(o)
        if not os.path.exists(o):
            def j(c=c, o=o):
                os.makedirs(eng, exist_ok=True)
                t = "%s.%d" % (o, os.getpid())
                run([CLANGXX] + CXXFLAGS + ["-I", REPO + "/src", "-I", SIM + "/include", "-c", c, "-o", t])
                os.rename(t, o)
            jobs.insert(0, j)
    if python:
        pyeng = eng + "-py-%s" % tree_hash(pysources()[1])[:10]

        def ext():
            run([VENV + "/bin/python", "-m", "cython", REPO + "/bigfile/pyxbigfile.pyx", "-o", out + "/pyxbigfile.c"], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
            cc(out + "/pyxbigfile.c", out + "/pyxbigfile.o", PYINC + ["-DNPY_NO_DEPRECATED_API=0", "-fno-sanitize-address-use-after-scope"], redef=redefpy)()
            os.makedirs(out + "/pypkg/bigfile")
            run([CLANG, "-shared", "-fsanitize=address", "-o", out + "/pypkg/bigfile/pyxbigfile.so", out + "/pyxbigfile.o"])
            for p in glob.glob(REPO + "/bigfile/*.py"):
                shutil.copy(p, out + "/pypkg/bigfile/")
            shutil.copy(SIM + "/py/harness.py", out + "/harness.py")

        def host():
            if not os.path.exists(pyeng + ".o"):
                t = "%s.o.%d" % (pyeng, os.getpid())
                run([CLANGXX] + CXXFLAGS + PYINC + ['-DBF_SITE="%s"' % SITE, "-I", REPO + "/src", "-I", SIM + "/include", "-c", SIM + "/py/pyhost.cpp", "-o", t])
                os.rename(t, pyeng + ".o")
        jobs[0:0] = [ext, host]
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    for d in glob.glob(BUILD + "/eng-*"):
        if d != eng and os.path.getmtime(d) < os.path.getmtime(eng) - 3600:
            shutil.rmtree(d, ignore_errors=True)
    und = set()
    for o in libobjs + list(toolobjs.values()):
        for line in run(["nm", "-u", o]).splitlines():
            und.add(line.split()[-1].split("@")[0])
    bad = sorted(und & set(FORBIDDEN))
    if bad:
        raise BuildError("the code under test calls %s, which the simulator does not provide" % bad)
    links = [[CLANG, "-shared", "-Wl,-Bsymbolic", "-fsanitize=address", "-o", out + "/libbig.so"] + libobjs + ["-lm"]]
    if want_cov:
        links.append([CLANG, "-shared", "-Wl,-Bsymbolic", "-fsanitize=address", "-o", out + "/libbigcov.so"] + covobjs + ["-lm"])
    for t, o in toolobjs.items():
        links.append([CLANG, "-shared", "-Wl,-Bsymbolic", "-fsanitize=address", "-o", out + "/tool-%s.so" % t, o] + libobjs + ["-lm"] + (["-lgsl", "-lgslcblas"] if t == "sample-mpi" else []))
    links.append([CLANGXX, "-fsanitize=address", "-rdynamic", "-o", out + "/engine"] + engobjs + ["-lgsl", "-lgslcblas", "-lpthread", "-ldl"])
    if python:
        links.append([CLANGXX, "-fsanitize=address", "-rdynamic", "-o", out + "/pyengine"] + engobjs + [pyeng + ".o", "-L/usr/lib/x86_64-linux-gnu", "-lpython3.12", "-lgsl", "-lgslcblas", "-lpthread", "-ldl"])
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, l) for l in links]:
            f.result()
    for o in glob.glob(out + "/*.o"):
        os.unlink(o)


if __name__ == "__main__":
    print(build(want_cov="cov" in sys.argv))
