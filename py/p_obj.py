"""Object properties: C12, C13, C14, C18, C25."""
from seg import *


def g_end_simple(d, w, gids=None):
    """free groups made by w.group; allocations on them must be gone"""
    nc = truth(w.env.get("ARMCI_NONCOLLECTIVE_GROUPS"))
    for g in d.perm(sorted(gids if gids is not None else w.groups)):
        for r in (w.groups[g] if nc else range(w.np)):
            w.op(r, "gfree %d" % g)
        del w.groups[g]


# ---------------------------------------------------------------- C12
class O12(OA):
    shared_local = 0.25
    ops = (1, 3)
    types = [RAW, INT, DBL]


def c12many(d):
    return c12(d, True)


def c12(d, many=False):
    w = base_world(d, NPS)
    tune(d, w, 0.25)
    w.cfg["zeroptr"] = d.int(0, 1)
    dbg = d.bool(0.2)
    if dbg:
        w.env["ARMCI_DEBUG_ALLOC"] = "1"
    if d.bool(0.2):
        w.env["ARMCI_NONCOLLECTIVE_GROUPS"] = "1"
    if not many and not dbg and d.bool(0.08):
        huge(d, w, 5 << 29)
    o = O12()
    o.types = d.choice([[RAW, INT, DBL], [RAW]])
    hist = []
    w.init()
    hs = [[] for _ in range(w.np)]
    big = 1
    nfree = 0
    for _ in range(d.int(20, 70) if many else d.int(5, 16)):
        d.span(41)
        live = [a for a in w.allocs if a.live]
        k = d.weighted([(30, "alloc"), (8, "free"), (3, "ops"), (1, "snap"), (1, "local")] if many else
                       [(6, "alloc"), (3, "free"), (4, "ops"), (2, "snap"), (1, "local"), (1, "barrier")])
        if k == "alloc" and len(live) < (50 if many else 8) and len(w.allocs) < (60 if many else 40):
            a = a_alloc(d, w, o, hist, groups=0.35, fill=not (dbg and d.bool()))
            big = max(big, len(live) + 1)
        elif k == "free" and live:
            a = d.choice(live)
            a_free(d, w, a, hist)
            nfree += 1
            if not any(a.mem.values()):
                w.labels.add("free-of-nothing")
        elif k == "ops":
            for r in range(w.np):
                for _ in range(d.int(*o.ops)):
                    gen_op(d, w, r, o, hs[r])
        elif k == "snap":
            a_snapshot(d, w, "contents in the middle of an allocation history")
        elif k == "local":
            for r in range(w.np):
                b = w.lbuf(r, d.int(1, 60), armci=True)
                if d.bool():
                    w.lbfree(b)
        elif k == "barrier":
            w.sync("barrier")
        d.endspan()
    w.sync("barrier")
    a_snapshot(d, w, "contents at the end of an allocation history")
    end = d.choice(["leave-world", "free-all", "leave-all"])
    for a in d.perm([a for a in w.allocs if a.live]):
        if end == "free-all" or end == "leave-world" and a.gid is not None:
            a_free(d, w, a, hist)
    if end != "leave-all" or not any(a.live and a.gid is not None for a in w.allocs):
        g_end_simple(d, w)
        w.cfg["leakcheck"] = 1
    if any(a.live for a in w.allocs):
        w.labels.add("left-to-finalize")
    w.expect.append(["oracle", "alloc_tables", {"hist": hist}])
    w.finish(dumps=False)
    w.labels.add("live:%d" % (min(big, 6) if big < 10 else big // 10 * 10))
    w.nontrivial = big >= 2 and (nfree > 0 or end == "free-all")
    return w.case()


reg(Prop("C12", [Group("history", c12, 6500), Group("many", c12many, 250)],
         "histories of world, group and memory-device allocations (0-6 live at a time, any sizes including zero), frees in any order (NULL by members without memory), one-sided operations to "
         "live allocations, local allocations and snapshots of all contents; the logged address tables are checked for agreement and disjointness over the history, contents against the model, "
         "remaining allocations are left to finalize and the simulator audits that everything was released. Non-trivial: two allocations live at once and at least one free.",
         assumptions=["a group outlives its allocations (gmr.c states freeing it earlier is invalid)"]))


# ---------------------------------------------------------------- C13
class O13(OA):
    nb = 0.2
    ops = (0, 2)


def c13many(d):
    return c13(d, True)


def c13(d, many=False):
    w = base_world(d, ((2, 2), (4, 3), (4, 4), (2, 5), (1, 1)))
    tune(d, w, 0.15)
    if d.bool(0.4):
        w.env["ARMCI_NONCOLLECTIVE_GROUPS"] = "1"
        w.labels.add("noncollective")
    if d.bool(0.4):
        w.env["ARMCI_CACHE_RANK_TRANSLATION"] = d.choice(["0", "1"])
    w.init()
    g_start(w)
    o = O13()
    hist = []
    seg_groups(d, w, d.int(15, 50) if many else d.int(4, 12))
    hs = [[] for _ in range(w.np)]
    for _ in range(d.int(0, 2)):
        d.span(42)
        mine = []
        for _ in range(d.int(1, 2)):
            if groups_of(w):
                mine.append(a_alloc(d, w, o, hist, groups=1.0, how=False, newgroup=False))
                w.labels.add("group-alloc")
        for r in range(w.np):
            for _ in range(d.int(*o.ops) + (1 if mine else 0)):
                gen_op(d, w, r, o, hs[r])
        seg_groups(d, w, d.int(0, 3))
        w.sync("barrier")
        for a in mine:
            w.dump_alloc(a, "contents of a group allocation addressed by absolute ids")
            a_free(d, w, a, hist)
        seg_groups(d, w, d.int(0, 2))
        d.endspan()
    w.sync("barrier")
    for g in sorted(w.gv):
        for r in sorted(w.gv[g]):
            g_info1(w, r, g)
    if hist:
        w.expect.append(["oracle", "alloc_tables", {"hist": hist}])
    g_end(d, w, reset=d.bool())
    w.cfg["leakcheck"] = 1
    w.finish()
    w.nontrivial = bool({"group:create", "group:child", "group:split", "group:dup"} & w.labels)
    return w.case()


reg(Prop("C13", [Group("groups", c13, 6500), Group("many", c13many, 300)],
         "histories of group creation (from the default group, from a parent, by split, by duplication, empty, unsorted, nested), default-group changes, queries by members and non-members, frees, "
         "collective use, and one-sided operations by absolute ids on allocations over the groups, in collective and non-collective mode with and without cached translation; every answer is "
         "compared with a list model. Non-trivial: at least one group was created.",
         assumptions=["a group that is the current default of some process is not freed"]))


# ---------------------------------------------------------------- C14
def c14(d, big=False):
    w = base_world(d, ((3, 2), (4, 3), (3, 4), (1, 5), (1, 1)))
    tune(d, w, 0.1)
    w.cfg["userop"] = d.int(0, 1)
    if d.bool(0.4):
        w.env["ARMCI_SHR_BUF_METHOD"] = d.choice(["COPY", "NOGUARD"])
        w.copy_mode = w.env["ARMCI_SHR_BUF_METHOD"] == "COPY"
        w.labels.add("SHR_BUF_METHOD=" + w.env["ARMCI_SHR_BUF_METHOD"])
    w.init()
    if d.bool(0.6):
        make_allocs(d, w, OS())
    for _ in range(d.int(0, 2)):
        w.group(d.perm(d.subset(range(w.np), 1)))
    w.bigmsg = big
    seg_msg(d, w, d.int(1, 5))
    w.finish()
    w.nontrivial = w.nops > 0
    return w.case()


def c14big(d):
    return c14(d, True)


reg(Prop("C14", [Group("messages", c14, 8000), Group("long-messages", c14big, 500)],
         "sequences of message-layer operations: global operations (15 operator names, five element types, typed and scoped entry points, world and group), select by minimum and maximum with "
         "partial contribution, broadcasts over world, scope and group from every root, point-to-point with exact and any source, tree queries; buffers private or in shared memory with guard "
         "bytes, combined by the simulator in varying association orders. Values are drawn so that results are exact in every order. Non-trivial: at least one operation.",
         assumptions=["absmin/absmax are not given INT_MIN-like values or floating zeros; select always has a contributor"]))


# ---------------------------------------------------------------- C18
EKEYS = {"ARMCI_IOV_METHOD": ["BATCHED", "AUTO", "CONSRV", "DIRECT"], "ARMCI_STRIDED_METHOD": ["IOV", "DIRECT"],
         "ARMCI_NONCOLLECTIVE_GROUPS": ["0", "1"], "ARMCI_CACHE_RANK_TRANSLATION": ["1", "0"],
         "ARMCI_SHR_BUF_METHOD": ["NOGUARD", "COPY"], "ARMCI_USE_WIN_ALLOCATE": ["1", "0"],
         "ARMCI_NO_FLUSH_LOCAL": ["0", "1"]}


def initial(d, w, how, chk=True):
    for r in range(w.np):
        if chk:
            i = w.op(r, "initialized")
            w.exp("R", r, i, [0], "initialized before initialization")
        w.op(r, "%sinit %s" % ("!" if d.bool(0.1) else "", how))
        i = w.op(r, "initialized")
        w.exp("R", r, i, [1], "initialized after initialization")


def epoch_body(d, w, o, keys):
    """services between initialization and finalization; returns False when something
    that only the user may free is left"""
    seg_identity(d, w)
    g_start(w)
    for _ in range(d.int(1, 4)):
        d.span(43)
        k = d.weighted([(4, "data"), (2, "msg"), (2, "groups"), (2, "mutex"), (1, "alloc"), (1, "nest"), (1, "fence")])
        if k == "data":
            seg_data(d, w, o)
        elif k == "msg":
            seg_msg(d, w, d.int(1, 2))
        elif k == "groups":
            seg_groups(d, w, d.int(1, 4))
        elif k == "mutex":
            seg_mutex(d, w, keys=keys)
        elif k == "alloc":
            a_alloc(d, w, OA(), None, groups=0.3, newgroup=False)
        elif k == "nest":
            # a nested pair: state must survive the inner finalize
            for r in range(w.np):
                w.op(r, "init " + d.choice(["plain", "args", "thread 0"]))
            if d.bool():
                w.sync("barrier")
            for r in range(w.np):
                w.op(r, "fini")
                i = w.op(r, "initialized")
                w.exp("R", r, i, [1], "initialized after the inner finalization")
            w.labels.add("nested")
        else:
            for r in range(w.np):
                w.op(r, d.choice(["afence", "waitall", "progress", "timer"]))
        w.labels.add("service:" + k)
        d.endspan()
    w.sync("barrier")
    for a in w.allocs:
        if a.live:
            w.dump_alloc(a, "contents at the end of an initialized period")
    w.sync("barrier")
    for a in d.perm([a for a in w.allocs if a.live]):
        if a.gid is not None or d.bool(0.6):
            a_free(d, w, a, None)
        else:
            w.labels.add("left-to-finalize")
    # groups of make_allocs are not in w.gv
    g_end_simple(d, w, [g for g in w.groups if g not in w.gv])
    g_end(d, w, reset=d.bool())
    for r in range(w.np):
        w.quiet(r)
    for (r, i), b in sorted(w.live_lb.items()):
        w.op(r, "%s %d" % ("lfree" if b.armci else "lbfree", i))


class OE(OS):
    groups = 0.0


def c18(d):
    NP = d.weighted([(3, 2), (4, 3), (3, 4), (1, 5), (1, 1)])
    if NP > 3 and d.bool(0.1):
        NP = d.int(6, 8)
    w = World(d, NP, d.weighted([(5, 1), (4, 3), (1, 2)]))
    sched(d, w)
    libversion(d, w)
    lev = d.int(0, 3)
    w.pm = list(range(NP))
    w.allop("mpi_init %d" % lev)
    nep = d.weighted([(8, 2), (8, 1), (8, 3), (1, 7)])
    nc = 0
    shapes = set()
    for e in range(nep):
        d.span(44)
        # the configuration of this period
        if e or d.bool(0.5):
            env = {k: (d.choice(v) if d.bool(0.5) else v[0]) for k, v in EKEYS.items()}
        else:
            env = {k: v[0] for k, v in EKEYS.items()}
        w.epoch(list(range(NP)))
        for k, v in env.items():
            w.allop("env %s %s" % (k, v))
        w.env = env
        w.copy_mode = env["ARMCI_SHR_BUF_METHOD"] == "COPY"
        shape = d.weighted([(3, "world"), (3, "permuted"), (3, "subset"), (2, "parts")] if NP > 1 else [(1, "world"), (1, "permuted")])
        shapes.add(shape)
        w.labels.add("comm:" + shape)
        parts = [list(range(NP))]
        hows = ["plain", "args", "thread %d" % d.int(0, lev)]
        free = False
        if shape != "world" or d.bool(0.3):
            if shape == "permuted":
                parts = [d.perm(range(NP))]
            elif shape == "subset":
                parts = [d.perm(d.subset(range(NP), 1))]
            elif shape == "parts":
                p = d.perm(range(NP))
                k = d.int(1, NP - 1)
                parts = [p[:k], p[k:]]
            c = nc % 8
            nc += 1
            for r in range(NP):
                col = [i for i, p in enumerate(parts) if r in p]
                key = parts[col[0]].index(r) if col else 0
                w.op(r, "usercomm %d %d %d" % (c, col[0] if col else -32766, key))
            hows = ["thread_comm %d %d" % (d.int(0, lev), c), "mpi_comm %d" % c]
            free = d.bool()
        for r in range(NP):
            if not any(r in p for p in parts):
                i = w.op(r, "initialized")
                w.expect.append(["R", r, i, [0], "initialized on a process left out"])
        for pi, p in enumerate(parts):
            w.epoch(p)
            w.labels.add("procs:%d" % len(p))
            how = d.choice(hows)
            initial(d, w, how)
            if free and d.bool(0.8):
                w.allop("usercommfree %d" % c)
                freed = True
            else:
                freed = False
            depth = 1
            for _ in range(d.weighted([(9, 0), (3, 1), (3, 2), (1, 6)])):
                for r in range(w.np):
                    w.op(r, "init " + d.choice(["plain", "args", "thread 0"]))
                depth += 1
            o = OE()
            epoch_body(d, w, o, list(range(19 * pi, 19 * pi + 19)))
            for i in range(depth):
                for r in range(w.np):
                    w.op(r, "%sfini" % ("!" if d.bool(0.1) else ""))
                    j = w.op(r, "initialized")
                    w.exp("R", r, j, [1 if i + 1 < depth else 0], "initialized after %d of %d finalizations" % (i + 1, depth))
                if i + 1 < depth and d.bool(0.5):
                    w.allop("barrier")
                    w.labels.add("works-until-last-finalize")
            if depth > 1:
                w.labels.add("counted")
            if d.bool(0.4):
                for _ in range(d.int(1, 2)):
                    w.allop("fini")
                w.labels.add("extra-finalize")
            if not freed and shape != "world" or hows[0][:6] == "thread" and "_comm" in hows[0] and not freed:
                w.allop("usercommfree %d" % c)
        d.endspan()
    w.env = {}
    w.pm = list(range(NP))
    w.np = NP
    w.cfg["leakcheck"] = 1
    w.allop("mpi_fini")
    w.labels.add("periods:%d" % nep)
    w.nontrivial = nep > 1 or "counted" in w.labels or shapes != {"world"}
    return w.case()


reg(Prop("C18", [Group("periods", c18, 5000)],
         "one to three initialized periods per program through every initialization entry point, on the world, on permuted and subset communicators and on two disjoint communicators at once, "
         "with a fresh configuration each time, nested initializations and extra finalizations, the caller's communicator freed right after initialization, and in between identity, data, message, "
         "group, mutex and allocation segments checked against the model; no MPI object or byte may be left at the end. Non-trivial: more than one period, nesting, or a communicator other than the world."))


# ------------------------------------------- C17, the services beside data movement
def c17serv(d):
    w = base_world(d, ((2, 2), (4, 3), (3, 4), (1, 5), (1, 1)))
    wild_env(d, w)
    w.copy_mode = w.env.get("ARMCI_SHR_BUF_METHOD") == "COPY"
    o = OE()
    if truth(w.env.get("ARMCI_IOV_CHECKS")):
        o.overlap_acc = o.multi_alloc = True
    w.init()
    epoch_body(d, w, o, list(range(38)))
    w.cfg["leakcheck"] = 1
    w.finish(dumps=False)
    w.nontrivial = w.nops > 1
    return w.case()


REG["C17"].groups.append(Group("services", c17serv, 3000))


# ---------------------------------------------------------------- C25
def c25(d):
    NP = d.weighted([(3, 2), (4, 3), (3, 4), (2, 5), (1, 1), (1, 6)])
    w = World(d, NP, d.weighted([(5, 1), (4, 3), (1, 2)]))
    sched(d, w)
    w.allop("mpi_init 0")
    for e in range(d.int(1, 2)):
        parts = [list(range(NP))]
        k = d.choice(["world", "permuted", "subset", "parts"])
        if k == "permuted":
            parts = [d.perm(range(NP))]
        elif k == "subset":
            parts = [d.perm(d.subset(range(NP), 1))]
        elif k == "parts" and NP > 1:
            p = d.perm(range(NP))
            i = d.int(1, NP - 1)
            parts = [p[:i], p[i:]]
        w.labels.add("comm:" + k)
        how = "plain"
        if k != "world":
            for r in range(NP):
                col = [i for i, p in enumerate(parts) if r in p]
                w.lines[r].append("usercomm %d %d %d" % (e, col[0] if col else -32766, parts[col[0]].index(r) if col else 0))
            how = "mpi_comm %d" % e
        for p in parts:
            w.epoch(p)
            w.allop("init " + how)
            seg_identity(d, w)
            if d.bool(0.5):
                # groups and the default group do not change identities
                g_start(w)
                seg_groups(d, w, d.int(1, 3))
                seg_identity(d, w)
                g_end(d, w)
                w.labels.add("after-groups")
            w.allop("fini")
    w.pm, w.np = list(range(NP)), NP
    w.allop("mpi_fini")
    w.nontrivial = NP > 1
    return w.case()


reg(Prop("C25", [Group("identity", c25, 3000)],
         "identity, world-group and domain queries on every process over world, permuted, subset and disjoint communicators of 1-6 processes, before and after group operations; an oracle checks "
         "partition, id translation in both directions, sizes and same-node answers on each process and agreement between processes. Non-trivial: more than one process."))
