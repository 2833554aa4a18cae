"""Front end: from /repo's current source to LLVM bitcode (for the verifier) and to native
shared objects (for replaying counterexamples).

clang++-18 does not accept four constructs that g++-14 accepts.  They are rewritten mechanically,
by the rules in RULES below, in a scratch copy of /repo/lib made on every run; everything else is
compiled as it is.  The counterexample replay uses g++-14 on /repo/lib itself, with no rewriting.
"""
import hashlib, os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get("MITO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
CLANG, GXX, OPT = "/usr/bin/clang++-18", "/usr/bin/g++-14", "/usr/bin/opt-18"

RULES = [
    # 1. missing 'template' keyword before a dependent member template
    (re.compile(r"(typename\s+(?:\w+::)+)(\w+_family_type\s*<)"), r"\1template \2"),
    # 2. constexpr local initialised through a reference parameter (P2280)
    (re.compile(r"\bconstexpr auto (origin\s*=\s*coordinate_system\.)"), r"const auto \1"),
    # 3. consteval weight check of the quadrature tables (the sum is an obligation of Q01 instead)
    (re.compile(r"static_assert\(weightsSum == 1\.0\);"), r""),
    (re.compile(r"constexpr auto weightsSum = [^;]*;"), r""),
    # 4. class template argument deduction through an alias template
    (re.compile(r"auto mesh_writer = mesh_writer_t\("), r"auto mesh_writer = mesh_writer_t<mito::mesh::mesh_t<cellT>, geometry::coordinate_system_t<coordT>>("),
]

DEFS = ["-DMITO_CORE", "-DWITH_MPI", "-DWITH_PETSC"]
SYS = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "-isystem", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include",
       "-isystem", "/opt/pyre/include"]
LIBS = ["-L/opt/pyre/lib", "-Wl,-rpath,/opt/pyre/lib", "-ljournal"]
SHIM = os.path.join(VERIF, "harness", "shim.h")


class BuildError(Exception):
    pass


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        os.makedirs(BUILD, exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix="run.", dir=BUILD)
        import atexit
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


_overlay = None
rewrites = []


def version_header(dst):
    src = os.path.join(REPO, "lib/mito/version.h.in")
    txt = open(src).read() if os.path.exists(src) else ""
    txt = re.sub(r"@\w*(?:MAJOR|MINOR|MICRO)\w*@", "1", txt)
    txt = re.sub(r"@\w+@", "0", txt)
    with open(dst, "w") as f:
        f.write(txt)


def overlay():
    """scratch copy of /repo/lib with the mechanical rewrites; returns its path"""
    global _overlay
    if _overlay:
        return _overlay
    dst = os.path.join(scratch(), "lib")
    base = os.path.join(REPO, "lib")
    for root, _, files in os.walk(base):
        rel = os.path.relpath(root, base)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            p = os.path.join(root, f)
            if not f.endswith((".h", ".icc", ".cc")):
                continue
            t = open(p, encoding="utf-8", errors="surrogateescape").read()
            n = t
            for r, s in RULES:
                n, k = r.subn(s, n)
                if k:
                    rewrites.append(f"{os.path.join(rel, f)}: {k} x /{r.pattern}/")
            with open(os.path.join(dst, rel, f), "w", encoding="utf-8", errors="surrogateescape") as g:
                g.write(n)
    version_header(os.path.join(dst, "mito/version.h"))
    _overlay = dst
    return dst


def native_inc():
    """include flags on /repo/lib itself (g++-14)"""
    d = os.path.join(scratch(), "gen")
    if not os.path.isdir(os.path.join(d, "mito")):
        os.makedirs(os.path.join(d, "mito"))
        version_header(os.path.join(d, "mito/version.h"))
    return ["-I" + os.path.join(REPO, "lib"), "-I" + d]


def harness(name):
    return os.path.join(VERIF, "harness", name)


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


MODES = {
    # numeric code: clang inlines and simplifies (no vectorisation, no contraction, strict IEEE)
    "O1": ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno"],
    # pointer code: nothing is inlined, so that the functions under contract stay functions
    "O0": ["-O0", "-Xclang", "-disable-O0-optnone"],
    # the same, locals stay in memory: the loop-carried state of a loop is its dirty memory
    "O0raw": ["-O0", "-Xclang", "-disable-O0-optnone"],
}


def bitcode(src, mode="O1", defs=(), passes=None, tag=""):
    """compile a harness against the overlay; returns the path of the bitcode"""
    ov = overlay()
    out = os.path.join(scratch(), os.path.basename(src) + f".{mode}{tag}.bc")
    if os.path.exists(out):
        return out
    cmd = ([CLANG] + DEFS + ["-I" + ov] + SYS + ["-std=c++23", "-w", "-include", SHIM, "-fno-access-control",
           "-fno-threadsafe-statics", "-fno-asynchronous-unwind-tables", "-DVERIFY"] + list(defs) + MODES[mode]
           + ["-emit-llvm", "-c", src, "-o", out])
    p = run(cmd)
    if p.returncode:
        raise BuildError(f"clang++ cannot compile {os.path.basename(src)} against the current tree:\n" + errors(p.stderr))
    if passes is None and mode == "O0":
        passes = "function(sroa,mem2reg,instsimplify,simplifycfg)"
    if passes:
        p = run([OPT, "-passes=" + passes, out, "-o", out])
        if p.returncode:
            raise BuildError(p.stderr)
    return out


def errors(txt):
    l = [x for x in txt.splitlines() if "error" in x]
    return "\n".join(l[:6]) or txt[-2000:]


def shared(src, defs=(), opt="-O1"):
    """compile a harness natively (g++-14, /repo/lib as it is) to a shared object"""
    out = os.path.join(scratch(), os.path.basename(src) + ".so")
    if os.path.exists(out):
        return out
    cmd = ([GXX] + DEFS + native_inc() + SYS + ["-std=c++23", "-w", "-include", SHIM, "-fno-access-control",
           "-ffp-contract=off", opt, "-shared", "-fPIC"] + list(defs) + [src, "-o", out] + LIBS)
    p = run(cmd)
    if p.returncode:
        # as a last resort the overlay (identical apart from the rewrites) and clang
        cmd = ([CLANG] + DEFS + ["-I" + overlay()] + SYS + ["-std=c++23", "-w", "-include", SHIM, "-fno-access-control",
               "-ffp-contract=off", opt, "-shared", "-fPIC"] + list(defs) + [src, "-o", out] + LIBS)
        q = run(cmd)
        if q.returncode:
            raise BuildError(errors(p.stderr))
    return out


def program(src, out=None, defs=(), flags=("-O1", "-g"), libs=()):
    """compile a replay driver natively against /repo/lib"""
    out = out or os.path.join(scratch(), os.path.basename(src) + ".exe")
    cmd = ([GXX] + DEFS + native_inc() + SYS + ["-std=c++23", "-w", "-include", SHIM, "-fno-access-control"]
           + list(flags) + list(defs) + [src, "-o", out] + list(libs) + LIBS)
    p = run(cmd)
    if p.returncode:
        raise BuildError(errors(p.stderr))
    return out
