"""Extraction of the current source tree of intel/yask into a resolved program.

Runs the clang extractor over every translation unit of a configuration and
merges the result.  Nothing of yask is executed except its source generators
(perl scripts that emit headers), exactly as its own build does.
"""
import os, sys, json, subprocess, tempfile, shutil, hashlib, time, glob, atexit
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YASK_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable source, no instances)."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="yxt.")
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ensure_extractor():
    r = run(["bash", os.path.join(VERIF, "extract/build.sh"), BUILD])
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout[-2000:])
    return os.path.join(BUILD, "yxt")


CLANG = ["-x", "c++", "-std=c++17", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
         "-Wno-everything", "-ferror-limit=5"]


def gen_commands(gen, targets):
    """Perl commands the kernel Makefile would run to create 'targets' in 'gen'."""
    code = os.path.join(gen, "yask_stencil_code.hpp")
    cmd = ["make", "-n", "-C", os.path.join(REPO, "src/kernel"), "stencil=test_3d", "arch=avx2",
           "YK_GEN_DIR=" + gen, "YC_EXEC=" + gen + "/yc", "-o", code, "-o", gen + "/yc"]
    r = run(cmd + [os.path.join(gen, t) for t in targets])
    out = []
    for ln in r.stdout.splitlines():
        ln = ln.strip()
        if "gen_loops.pl" in ln or "gen_layouts.pl" in ln:
            out.append(ln)
    return out


LOOP_HDRS = ["yask_%s_loops.hpp" % x for x in
             ("rank", "mega_block", "block", "micro_block", "nano_block", "pico_block", "misc")]
LAYOUT_HDRS = ["yask_layout_macros.hpp", "yask_layouts.hpp", "yask_var_code.hpp"]


def make_gen(dst, standin=None):
    """Populate 'dst' with the generated kernel sources for the stand-in solution."""
    os.makedirs(dst, exist_ok=True)
    standin = standin or os.path.join(VERIF, "standin")
    for f in ("yask_stencil_code.hpp", "yask_solution_code.hpp"):
        shutil.copy(os.path.join(standin, f), dst)
    cmds = gen_commands(dst, LOOP_HDRS + LAYOUT_HDRS)
    if len(cmds) < len(LOOP_HDRS) + len(LAYOUT_HDRS):
        raise AnalysisBroken("kernel Makefile yields %d generator commands, expected %d" % (len(cmds), len(LOOP_HDRS) + len(LAYOUT_HDRS)))
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda c: run(["bash", "-c", c], cwd=dst), cmds):
            if r.returncode:
                raise AnalysisBroken("source generator failed:\n" + r.stdout[-1500:])
    return dst


def regen_standin(dst):
    """Build the stencil compiler from the tree and generate the stand-in solution with it."""
    os.makedirs(dst, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, d) for d in ("include", "include/aux", "src/compiler/lib", "src/compiler", "src/common", "src/contrib/coefficients")]
    srcs = compiler_sources() + sorted(glob.glob(os.path.join(REPO, "src/contrib/coefficients/*.cpp")))
    srcs += [os.path.join(REPO, "src/stencils/TestStencils.cpp")]
    objs = [os.path.join(dst, "o%d.o" % i) for i in range(len(srcs))]
    def cc(so):
        return run(["g++", "-std=c++17", "-O0", "-w", "-c", so[0], "-o", so[1]] + inc)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(cc, list(zip(srcs, objs))):
            if r.returncode:
                raise AnalysisBroken("stencil compiler does not build:\n" + r.stdout[-1500:])
    exe = os.path.join(dst, "yc")
    r = run(["g++", "-o", exe] + objs + ["-lpthread"])
    if r.returncode:
        raise AnalysisBroken("stencil compiler does not link:\n" + r.stdout[-1500:])
    out = os.path.join(dst, "standin")
    os.makedirs(out, exist_ok=True)
    r = run([exe, "-stencil", "test_3d", "-target", "avx2", "-elem-bytes", "8", "-p", os.path.join(out, "yask_stencil_code.hpp")])
    if r.returncode:
        raise AnalysisBroken("stencil compiler failed:\n" + r.stdout[-1500:])
    return out


def kernel_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src/kernel/lib/*.cpp")))
    s += sorted(glob.glob(os.path.join(REPO, "src/common/*.cpp")))
    return s


def compiler_sources():
    return (sorted(glob.glob(os.path.join(REPO, "src/compiler/lib/*.cpp"))) +
            sorted(glob.glob(os.path.join(REPO, "src/compiler/*.cpp"))) +
            sorted(glob.glob(os.path.join(REPO, "src/common/*.cpp"))))


def kernel_flags(gen, extra=(), mpi=True, isa=("-DUSE_INTRIN256", "-DUSE_AVX2", "-DNO_SVML"), march=("-mavx2",)):
    f = list(CLANG) + ["-I" + os.path.join(VERIF, "extract/stub"), "-fopenmp"] + list(march)
    if mpi:
        f += ["-I/usr/lib/x86_64-linux-gnu/mpich/include", "-DUSE_MPI"]
    f += ["-I" + os.path.join(REPO, "include"),
          "-DYK_CODE_FILE=%s/yask_stencil_code.hpp" % gen, "-DYK_SOLUTION_FILE=%s/yask_solution_code.hpp" % gen,
          "-DUSE_NUMAIF_H", "-DALLOW_NEW_VARS=1"] + list(isa)
    f += ["-I" + os.path.join(REPO, d) for d in ("include/aux", "src/kernel/lib", "src/common", "src/contrib/coefficients")]
    f += ["-I" + gen] + list(extra)
    return f


def compiler_flags():
    return list(CLANG) + ["-I" + os.path.join(VERIF, "extract/stub")] + \
        ["-I" + os.path.join(REPO, d) for d in ("include", "include/aux", "src/compiler/lib", "src/compiler", "src/common", "src/contrib/coefficients")]


def _load(path):
    with open(path) as f:
        return json.load(f)


def extract(tag, sources, flags, roots):
    exe = ensure_extractor()
    out = os.path.join(scratch(), tag)
    os.makedirs(out, exist_ok=True)
    jobs = []
    for i, s in enumerate(sources):
        o = os.path.join(out, "%02d_%s.json" % (i, os.path.basename(s)))
        cmd = [exe, "-o", o]
        for r in roots:
            cmd += ["-root", r.rstrip("/") + "/"]
        jobs.append((s, o, cmd + [s, "--"] + list(flags)))
    # big ones first.
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    errs = []
    with ThreadPoolExecutor(8) as ex:
        for (s, o, _), r in zip(jobs, ex.map(lambda j: run(j[2]), jobs)):
            if r.returncode or not os.path.exists(o):
                errs.append((s, r.stdout))
    if errs:
        raise AnalysisBroken("cannot parse %s:\n%s" % (errs[0][0], errs[0][1][-1500:]))
    return [o for _, o, _ in sorted(jobs)]


def load_kernel(tag="K", extra=(), sources=None, **kw):
    from .ir import Program
    # The generated headers of the stand-in solution; regenerated with the
    # tree's own stencil compiler if the committed ones no longer fit.
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    gen = os.path.join(scratch(), "gen_" + tag)
    srcs = sources or kernel_sources()
    try:
        if thorough:
            raise AnalysisBroken("regenerate")
        make_gen(gen)
        outs = extract(tag, srcs, kernel_flags(gen, extra, **kw), [REPO, gen])
    except AnalysisBroken as e:
        if not thorough:
            sys.stderr.write("note: regenerating the stand-in solution: %s\n" % str(e)[:300])
        st = regen_standin(os.path.join(scratch(), "regen"))
        make_gen(gen, st)
        outs = extract(tag, srcs, kernel_flags(gen, extra, **kw), [REPO, gen])
    return Program(outs, gen=gen)


def load_compiler(tag="C", sources=None):
    from .ir import Program
    outs = extract(tag, sources or compiler_sources(), compiler_flags(), [REPO])
    return Program(outs)
