"""C23 (profiling interface), C26 (the shipped profiling library)."""
import random
from p_misc import *
import p_misc

PVERBS = set("""malloc mdmalloc mdgmalloc mdfree mcreate mdestroy mbar mgbar init initialized lock unlock fini free fence put get acc puts gets accs
putv getv accv putf putsf putval getval nbputval nbput nbget nbacc nbputs nbgets nbaccs nbputv nbgetv nbaccv abegin aend afence barrier lmalloc lfree
wait waitproc waitall test testloop rmw""".split())


def names(d, w, init=True):
    """call each operation through one of its two names"""
    how = d.choice(["public", "mixed", "per-verb", "profiling"])
    rnd = random.Random(d.int(0, 1 << 20))
    for r in range(len(w.lines)):
        by = {v: rnd.random() < 0.5 for v in sorted(PVERBS)}
        for i, l in enumerate(w.lines[r]):
            v = l.split(" ", 1)[0]
            b = v.lstrip("!")
            if b not in PVERBS or (b in ("init", "fini") and not init):
                continue
            q = {"public": False, "profiling": True, "mixed": rnd.random() < 0.5, "per-verb": by[b]}[how]
            w.lines[r][i] = ("!" if q else "") + l.lstrip("!")
    w.labels.add("names:" + how)


def c23(prof):
    def gen(d):
        NP = d.weighted([(4, 2), (3, 3), (1, 4), (1, 1)])
        w = World(d, NP, d.weighted([(5, 1), (4, 3), (1, 2)]))
        kind = ({"prof": True} if prof else {})
        if not prof or d.bool(0.3):
            kind["noweak"] = True
        if not prof and d.bool(0.4):
            kind.pop("noweak")
        w.build.update(kind)
        sched(d, w)
        tune(d, w, 0.3)
        o = O19()
        if iov_checks(d, w, 0.2):
            o.overlap_acc = o.multi_alloc = True
        how = d.choice(["plain", "args", "thread 0", "thread_comm", "mpi_comm"])
        if "comm" in how:
            for r in range(NP):
                w.op(r, "mpi_init 0")
                w.op(r, "usercomm 0 0 %d" % r)
                w.op(r, "init %s" % ("thread_comm 0 0" if how == "thread_comm" else "mpi_comm 0"))
            w.inited = True
        else:
            w.init(how)
        g_start(w)
        for r in range(NP):
            i = w.op(r, "initialized")
            w.exp("R", r, i, ["1"], "ARMCI_Initialized after initialization")
        p_misc.c19_body(d, w, o, d.int(2, 5))
        w.sync("barrier")
        for a in d.perm([a for a in w.allocs if a.live]):
            if a.gid is not None or d.bool(0.6):
                a_free(d, w, a, None)
        g_end_simple(d, w, [g for g in w.groups if g not in w.gv])
        g_end(d, w, reset=d.bool())
        w.finish(dumps=False)
        for r in range(NP):
            if "comm" in how:
                w.lines[r].insert(len(w.lines[r]) - 1, "usercommfree 0")
        names(d, w)
        w.labels.add("init:" + how)
        w.labels.add("build:" + ("+".join(sorted(kind)) or "plain"))
        w.nontrivial = w.nops >= 2
        return w.case()
    return gen


C23B = [{"variant": v, **k} for v in (1, 2, 3) for k in ({}, {"noweak": True}, {"prof": True}, {"noweak": True, "prof": True})]
reg(Prop("C23", [Group("names", c23(False), 2000), Group("tool", c23(True), 3000)],
         "programs of at least two one-sided operations mixed with message, group, mutex, allocation and local-memory calls, each public call made through its ARMCI_ or PARMCI_ name, "
         "on builds with weak aliases and with wrapper functions, and with a generated profiling tool that redefines every interposable ARMCI_ entry point; after every call what the tool saw "
         "must be exactly what the application called",
         builds=C23B, assumptions=("the tool overrides all entry points at once; proper subsets are not linked separately",)))


# ---------------------------------------------------------------- C26
LONGRMW = {str(rmw_code(k)) for k in (1, 3)}


def c26(d):
    NP = d.weighted([(4, 2), (3, 3), (1, 4), (2, 1)])
    w = World(d, NP, d.weighted([(5, 1), (4, 3), (1, 2)]))
    w.build["prof"] = "tool"
    sched(d, w)
    tune(d, w, 0.3)
    o = O19()
    if iov_checks(d, w, 0.2):
        o.overlap_acc = o.multi_alloc = True
    how = d.choice(["plain", "args", "thread 0", "thread_comm", "mpi_comm"])
    for r in range(NP):
        w.op(r, "mpi_init 0")
        if "comm" in how:
            w.op(r, "usercomm 0 0 %d" % r)
            w.op(r, "init %s" % ("thread_comm 0 0" if how == "thread_comm" else "mpi_comm 0"))
        else:
            w.op(r, "init " + how)
    w.inited = True
    g_start(w)
    p_misc.c19_body(d, w, o, d.int(1, 5))
    w.sync("barrier")
    for a in d.perm([a for a in w.allocs if a.live]):
        if a.gid is not None or d.bool(0.6):
            a_free(d, w, a, None)
    g_end_simple(d, w, [g for g in w.groups if g not in w.gv])
    g_end(d, w, reset=d.bool())
    for (r, i), b in sorted(w.live_lb.items()):
        w.op(r, "%s %d" % ("lfree" if b.armci else "lbfree", i))
    for r in range(NP):
        w.quiet(r)
    names(d, w, init=False)
    at = [w.op(r, "Pcount") for r in range(NP)]
    progs, rl = [], []
    for r in range(NP):
        L = [l.lstrip("@") for l in w.lines[r]]
        progs.append([l if not l.startswith("fill") else "fill" for l in L if l.split()[0] in PVERBS])
        rl += [l.split()[1] in LONGRMW for l in L if l.startswith("rmw ")]
        w.op(r, "fini")
        if "comm" in how:
            w.op(r, "usercommfree 0")
        w.op(r, "mpi_fini")
    w.expect.append(["oracle", "profile", {"at": at, "progs": progs, "long_rmw": rl}])
    w.labels.add("init:" + how)
    w.nontrivial = w.nops >= 2
    return w.case()


reg(Prop("C26", [Group("profile", c26, 3000)],
         "programs of at least two one-sided operations mixed with message, group, mutex, allocation and local-memory calls run with the shipped profiling library interposed: results are "
         "checked against the same models as without it, and every line of the profile printed at finalization (calls, bytes, size histogram, minimum/average/maximum) against the application's calls",
         builds=[{"variant": v, "prof": "tool"} for v in (1, 2, 3)], assumptions=("one initialization and one finalization", "transfers below 1 MB")))
