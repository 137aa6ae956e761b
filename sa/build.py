"""Compile /repo's current source to LLVM bitcode (clang 18), with the defines of the project's own build."""
import concurrent.futures
import hashlib
import os
import subprocess
import sys
import tempfile

REPO = os.environ.get("DREAM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
COMMON = ["clang++-18" if False else "clang++", "-x", "c++", "-std=gnu++14", "-O1", "-Xclang", "-disable-llvm-passes", "-g",
          "-fno-discard-value-names", "-fPIC", "-DNDEBUG", "-DHAVE_FFTW", "-DHAVE_PTHREAD", "-w",
          "-ffp-contract=off", "-fno-math-errno", "-fdebug-compilation-dir=/-"]


class BuildError(Exception):
    pass


_env = {}


def _cmd(c):
    r = _env.get(tuple(c))
    if r is None:
        try:
            r = subprocess.run(c, capture_output=True, text=True, timeout=60).stdout.split()
        except Exception:
            r = []
        _env[tuple(c)] = r
    return r


def oct_includes():
    inc = _cmd(["mkoctfile", "-p", "INCFLAGS"])
    if not inc:
        import glob
        for d in glob.glob("/usr/include/octave-*/octave"):
            inc += [f"-I{d}/..", f"-I{d}"]
    return inc


def py_includes():
    inc = _cmd(["python3", "-c", "import sysconfig;print('-I'+sysconfig.get_paths()['include'])"])
    inc2 = _cmd(["/usr/bin/python3", "-c", "import sysconfig;print('-I'+sysconfig.get_paths()['include'])"])
    return list(dict.fromkeys(inc2 + inc))


FLAVOUR = {
    # Octave build of a library source or binding; -DOCTAVE -DDREAM_OCTAVE as oct/CMakeLists.txt does.
    "oct": lambda: ["-DOCTAVE", "-DDREAM_OCTAVE", f"-I{REPO}/include"] + oct_includes(),
    "octcl": lambda: ["-DOCTAVE", "-DDREAM_OCTAVE", "-DUSE_OPENCL", f"-I{REPO}/include"] + oct_includes(),
    "py": lambda: ["-DDREAM_PYTHON", f"-I{REPO}/include", f"-I{REPO}/python/include"] + py_includes(),
    "pyf": lambda: ["-DDREAM_PYTHON", "-DUSE_FLOAT", f"-I{REPO}/include", f"-I{REPO}/python/include"] + py_includes(),
    "spec": lambda: ["-DDREAM_OCTAVE", f"-I{REPO}/include", f"-I{VERIF}/spec"] + oct_includes(),
}

_srchash = None


def source_hash():
    """Hash of every file a compile can read from the repository (cache key)."""
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        for d in ("src", "include", "extra_src", "oct", "python", "opencl", "julia", "mex"):
            for root, dirs, files in os.walk(os.path.join(REPO, d)):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    if f.endswith((".cc", ".h", ".hpp", ".cl", ".c", ".jl", ".m")):
                        h.update(p.encode())
                        with open(p, "rb") as fh:
                            h.update(fh.read())
        _srchash = h.hexdigest()
    return _srchash


def cl_headers(d):
    """The xxd headers cmake generates from the kernels, generated again from the current .cl files."""
    for n in sorted(os.listdir(os.path.join(REPO, "opencl"))):
        if n.endswith(".cl"):
            data = open(os.path.join(REPO, "opencl", n), "rb").read()
            sym = "__" + n.replace(".", "_")
            with open(os.path.join(d, n + ".h"), "w") as f:
                f.write(f"unsigned char {sym}[] = {{0}};\nunsigned int {sym}_len = {len(data)};\n")


def compile_one(src, flavour, extra=()):
    """-> path of a bitcode file. src is relative to the repository unless absolute."""
    os.makedirs(CACHE, exist_ok=True)
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    if not os.path.exists(path):
        raise BuildError(f"source file {src} does not exist")
    h = hashlib.sha256()
    h.update(source_hash().encode())
    h.update(repr(("v3", COMMON, path, flavour, tuple(extra), REPO)).encode())
    with open(path, "rb") as f:
        h.update(f.read())
    if path.startswith(VERIF):
        for root, _, files in os.walk(os.path.dirname(path)):
            for fn in sorted(files):
                if fn.endswith((".h", ".cc")):
                    h.update(open(os.path.join(root, fn), "rb").read())
    out = os.path.join(CACHE, h.hexdigest()[:32] + ".bc")
    if os.path.exists(out):
        return out
    with tempfile.TemporaryDirectory(prefix="dreamsa") as td:
        cl_headers(td)
        tmp = out + f".{os.getpid()}.{len(os.listdir(CACHE))}.tmp"
        if flavour == "cl":
            cmd = ["clang", "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-O1", "-Xclang",
                   "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-w", "-ffp-contract=off", "-fdebug-compilation-dir=/-",
                   "-target", "spir64-unknown-unknown", "-c", "-emit-llvm", "-o", tmp, path]
        else:
            cmd = COMMON + FLAVOUR[flavour]() + [f"-I{td}"] + list(extra) + ["-c", "-emit-llvm", "-o", tmp, path]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=td)
        if r.returncode != 0:
            raise BuildError(f"clang failed on {src} ({flavour}):\n{r.stderr[-3000:]}")
        os.rename(tmp, out)
    return out


def compile_many(jobs):
    """jobs: list of (src, flavour) -> {job: path}"""
    source_hash()
    prune()
    res = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        fut = {ex.submit(compile_one, *j): j for j in jobs}
        for f in concurrent.futures.as_completed(fut):
            res[fut[f]] = f.result()
    return res


def prune(limit=600):
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        if len(fs) > limit:
            fs.sort(key=os.path.getmtime)
            for f in fs[:len(fs) - limit // 2]:
                os.unlink(f)
    except OSError:
        pass
