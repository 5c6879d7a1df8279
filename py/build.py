"""Builds the library under test (from /repo/src, unmodified) against simmpi.

Objects are cached by content under /verif/build, so a changed tree is always
recompiled and an unchanged one never is."""
import hashlib, os, re, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
LIB = """buffer debug groups internals malloc gmr message message_gop mutex
mutex_hdl_queue onesided onesided_nb rmw strided strided_nb topology util value_ops
vector vector_nb init_finalize conflict_tree armci-memdev parmci""".split()
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,signed-integer-overflow,shift",
       "-fno-sanitize-recover=all"]
BASE = ["gcc", "-std=gnu11", "-O1", "-g", "-fno-omit-frame-pointer", "-w"]
# a build of the library that can be preempted between any two loads and stores
MEMCC = ["clang", "-std=gnu11", "-O1", "-g", "-fno-omit-frame-pointer", "-w", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores"]
REDEF = """malloc calloc realloc free strdup posix_memalign aligned_alloc pthread_create
pthread_join pthread_exit pthread_mutex_lock pthread_mutex_unlock nanosleep usleep sleep
sched_yield""".split()


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    def __init__(self, cmd, err):
        super().__init__("build failed: %s\n%s" % (" ".join(cmd), err[-20000:]))
        self.link = "-c" not in cmd


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(cmd, r.stderr)


def _obj(src, cmd, key, tag):
    out = os.path.join(OUT, "obj", "%s-%s.o" % (tag, key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        _run(cmd + ["-c", src, "-o", tmp])
        os.replace(tmp, out)
    return out


def _runner_obj(src, cmd, key, tag):
    """the runner also exercises two internal modules; a tree that renames them
    loses those operations (reported as unsupported), not every check"""
    try:
        return _obj(src, cmd, key, tag)
    except BuildError:
        return _obj(src, cmd + ["-DRUN_NOINTERN"], key, tag + "_noint")


def lib_sources():
    """All library sources.  A new .c file beside the known ones is picked up when
    the repository's Makefile.am lists it."""
    am = _read(os.path.join(REPO, "Makefile.am")).decode()
    names = list(LIB)
    for extra in ("src/Makefile.mk",):
        p = os.path.join(REPO, extra)
        if os.path.exists(p):
            am += _read(p).decode()
    import re
    for f in re.findall(r"src/([A-Za-z0-9_\-]+)\.c", am):
        if f not in names and f != "mutex_hdl_spin" and os.path.exists(os.path.join(REPO, "src", f + ".c")):
            names.append(f)
    return [n for n in names if os.path.exists(os.path.join(REPO, "src", n + ".c"))]


def build(variant=1, cov=False, prof=False, mutex="queue", extra=(), noweak=False):
    """returns the path of a runner executable"""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    inc = ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(REPO, "src")]
    hdrs = b"".join(p.encode() + b"\0" + _read(p) for p in sorted(
        glob.glob(os.path.join(REPO, "src", "*.h")) + glob.glob(os.path.join(VERIF, "sim", "*.h"))))
    hk = _h(hdrs)
    d = ["-DSIM_VARIANT=%d" % variant, "-DHAVE_CONFIG_H"] + list(extra) + (["-DSIM_NOWEAK"] if noweak else [])
    covf = ["-fsanitize-coverage=trace-pc"] if cov is True else []
    names = lib_sources()
    if mutex == "spin":
        names = [n if n != "mutex_hdl_queue" else "mutex_hdl_spin" for n in names]
    jobs = []
    for n in names:
        src = os.path.join(REPO, "src", n + ".c")
        cmd = (MEMCC if cov == "mem" else BASE) + SAN + covf + d + inc
        jobs.append((src, cmd, _h(hk, _read(src), cmd), "lib_" + n))
    sim = os.path.join(VERIF, "sim")
    scmd = ["gcc", "-std=gnu11", "-O2", "-g", "-w", "-fno-builtin", "-fno-strict-aliasing"] + d + ["-I" + sim]
    jobs.append((os.path.join(sim, "simmpi.c"), scmd, _h(hk, _read(os.path.join(sim, "simmpi.c")), scmd), "simmpi"))
    rcmd = BASE + ["-fsanitize=address"] + d + inc + (["-DRUN_PROF=%d" % (2 if prof == "tool" else 1)] if prof else [])
    jobs.append((os.path.join(sim, "runner.c"), rcmd, _h(hk, _read(os.path.join(sim, "runner.c")), rcmd), "runner"))
    if prof == "tool":
        p = os.path.join(REPO, "profiler", "profiling.c")
        cmd = BASE + SAN + d + inc
        jobs.append((p, cmd, _h(hk, _read(p), cmd), "profiler"))
    elif prof:
        p = os.path.join(OUT, "prof_wrap.c")
        import profgen
        text = profgen.generate(REPO)
        p = os.path.join(OUT, "prof_%s.c" % _h(text))
        if not os.path.exists(p):
            with open(p + ".tmp%d" % os.getpid(), "w") as f:
                f.write(text)
            os.replace(p + ".tmp%d" % os.getpid(), p)
        jobs.append((p, rcmd, _h(hk, text, rcmd), "prof"))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: _runner_obj(*j) if j[3] == "runner" else _obj(*j), jobs))
    nl = len(names)
    key = _h(*objs)
    exe = os.path.join(OUT, "bin", "run-" + key)
    if not os.path.exists(exe):
        t = exe + ".%d" % os.getpid()
        _run(["ld", "-r", "-o", t + ".o"] + objs[:nl])
        _run(["objcopy"] + sum([["--redefine-sym", "%s=lib_%s" % (s, s)] for s in REDEF], []) + [t + ".o"])
        link = ["clang" if cov == "mem" else "gcc"] + SAN + ["-o", t, t + ".o"] + objs[nl:]
        try:
            _run(link + ["-lm", "-lpthread"])
        except BuildError as e:
            # a public name the library no longer defines: calling it is what fails
            miss = sorted(set(re.findall(r"undefined reference to `((?:P?ARMCI|p?armci)\w+)'", str(e))))
            if not miss:
                raise
            with open(t + ".c", "w") as f:
                f.write("void sim_missing(const char *);\n" + "".join('void %s(void) { sim_missing("%s"); }\n' % (m, m) for m in miss))
            _run(link + [t + ".c", "-lm", "-lpthread"])
            os.unlink(t + ".c")
        os.unlink(t + ".o")
        os.replace(t, exe)
    return exe


if __name__ == "__main__":
    for v in (1, 3):
        print(build(v))
