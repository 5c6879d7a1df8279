"""C24: several threads per process, and the asynchronous progress thread."""
from p_misc import *
from ops import _prod


class OT(Opt):
    phases = (1, 1)
    ops = (1, 4)
    nallocs = (1, 3)
    scalar = 0.25
    dla = 0.05
    groups = 0.2
    nb = 0.4
    types = [RAW, INT, LONG, DBL]
    shared_local = 0.15
    handles = True
    role_w = [(6, "x"), (1, "ro"), (2, "acc")]


BUILDS = [{"variant": v, "cov": c} for v in (1, 2, 3) for c in (True, "mem")]


def switch_points(d, w, pts):
    """switch points at basic blocks, or also at loads and stores outside the stack"""
    w.build = dict(w.build, cov=True)
    w.cfg["threadpts"] = d.choice(pts)
    if d.bool(0.4):
        w.build["cov"] = "mem"
        w.cfg["mempts"] = d.choice([20, 100, 400])
        w.labels.add("preempted-loads-and-stores")


def thr_world(d, nps, threads=True):
    w = base_world(d, nps)
    w.cfg["thread"] = 3
    switch_points(d, w, [30, 0, 5, 150, 400])
    tune(d, w, 0.3)
    if d.bool(0.3):
        progress_env(d, w)
    return w


def nest(d, w):
    """further initializations, at any level, do not change what the first one set up"""
    k = d.weighted([(7, 0), (2, 1), (1, 2)])
    for _ in range(k):
        w.labels.add("nested")
        w.allop("init " + d.choice(["plain", "args", "thread 0", "thread 2", "thread 3"]))
        if d.bool(0.4):
            w.allop("fini")
            k -= 1
    return k


def progress_env(d, w):
    w.env["ARMCI_PROGRESS_THREAD"] = "1"
    if d.bool(0.6):
        w.env["ARMCI_PROGRESS_USLEEP"] = str(d.choice([0, 1, 10, -5, 500, 20000, 400000, 1500000]))
    if d.bool(0.15):
        w.env["ARMCI_EXPLICIT_NB_PROGRESS"] = "0"
    w.cfg["threadpts"] = max(w.cfg.get("threadpts", 0), 30)
    w.labels.add("progress-thread")


def split_zones(d, w, K):
    """hand every zone to one thread of its user, or to all threads but the first"""
    for a in w.allocs:
        if not a.live:
            continue
        first = d.bool(0.3)     # reserved for the first threads
        for r in a.members:
            for z in a.zones[r]:
                z.owner = d.choice(a.members)
                z.role = "x"
                z.th = d.int(0, K[z.owner] - 1)
                k = d.weighted([(6, "x"), (1, "ro"), (2, "acc")])
                if first:
                    z.th = 0
                elif k != "x" and (k == "ro" or z.type in (INT, LONG)):
                    z.role, z.th, z.owner = k, -1, -1


def par_block(d, w, o, hist):
    np = w.np
    K = [d.weighted([(4, 2), (2, 3), (1, 1)]) for _ in range(np)]
    if max(K) == 1:
        K[d.int(0, np - 1)] = 2
    split_zones(d, w, K)
    for r in range(np):
        w.op(r, "par %d" % K[r])
    # threads other than the first: independent one-sided traffic
    keep = w.free_lb
    for k in range(1, max(K)):
        w.cur_th = k
        save = (w.pend, w.unf)
        w.pend, w.unf = [[] for _ in range(np)], [[] for _ in range(np)]
        pool = w.free_lb
        w.free_lb = [[] for _ in range(np)]
        for r in range(np):
            if K[r] <= k:
                continue
            hs = []
            for _ in range(d.int(*o.ops)):
                d.span(51)
                gen_op(d, w, r, o, hs)
                if w.pend[r] and d.bool(0.3):
                    w.complete(r, d.choice(w.pend[r]))
                if hs and d.bool(0.3):
                    handle_step(d, w, r, hs)
                if d.bool(0.15):
                    x = d.choice(["afence", "fence", "progress", "waitall", "local"])
                    if x == "fence":
                        w.op(r, "fence %d" % d.int(0, np - 1))
                    elif x == "waitall":
                        w.op(r, "waitall")
                    elif x == "local":
                        w.lbfree(w.lbuf(r, d.int(1, 30), armci=True))
                    else:
                        w.op(r, x)
                d.endspan()
        for r in range(np):
            save[0][r] += w.pend[r]
            save[1][r] += w.unf[r]
            pool[r] += w.free_lb[r]
        w.pend, w.unf = save
        w.free_lb = pool
    # the first threads: collective work and their own traffic
    later = (w.pend, w.unf, w.free_lb)
    w.pend, w.unf, w.free_lb = [[] for _ in range(np)], [[] for _ in range(np)], [[] for _ in range(np)]
    w.cur_th = 0
    mine = []
    what = d.choice(["ops", "mixed", "mixed", "allocs"])
    for _ in range(d.int(1, 5)):
        d.span(52)
        k = d.weighted([(4, "ops"), (2, "barrier"), (3, "alloc"), (3, "free"), (1, "mutex"), (1, "msg")]) if what == "mixed" else \
            d.choice(["alloc", "free", "alloc", "ops"]) if what == "allocs" else "ops"
        if k == "ops":
            for r in range(np):
                hs = []
                for _ in range(d.int(0, 3)):
                    gen_op(d, w, r, o, hs)
                    if w.pend[r] and d.bool(0.3):
                        w.complete(r, d.choice(w.pend[r]))
        elif k == "barrier":
            w.sync("barrier")
            assign_roles(d, w, o)
        elif k == "alloc" and len(w.allocs) < 12:
            mine.append(a_alloc(d, w, o, hist, groups=0.3, newgroup=False))
            w.labels.add("alloc-beside-threads")
        elif k == "free":
            a = [x for x in mine if x.live]
            if not a or d.bool():
                a = [x for x in w.allocs if x.live and not any(z.th for r in x.members for z in x.zones[r])]
            if a:
                a_free(d, w, d.choice(a), hist)
                w.labels.add("free-beside-threads")
        elif k == "mutex":
            seg_mutex(d, w)
        elif k == "msg":
            seg_msg(d, w, 1)
        d.endspan()
    for r in range(np):
        later[0][r] += w.pend[r]
        later[1][r] += w.unf[r]
        later[2][r] += w.free_lb[r]
    w.pend, w.unf, w.free_lb = later
    w.cur_th = None
    w.allop("endpar")
    for a in w.allocs:
        for r in a.members:
            for z in a.zones[r]:
                z.th = 0
    w.labels.add("threads:%d" % max(K))


def c24(d):
    w = thr_world(d, ((4, 2), (3, 3), (1, 4), (2, 1)))
    o = OT()
    hist = []
    w.init("thread 3", 3)
    inner = nest(d, w)
    g_start(w)
    if d.bool(0.4):
        seg_groups(d, w, 2)
    make_allocs(d, w, o)
    for a in w.allocs:
        a.how = "malloc"
    w.allop("barrier")
    n0 = w.nops
    for _ in range(d.int(1, 2)):
        d.span(50)
        par_block(d, w, o, hist)
        w.sync(d.choice(["barrier", "afence", "p2p"]))
        d.endspan()
    for _ in range(inner):
        w.allop("fini")
    w.finish()
    w.nontrivial = w.nops - n0 >= 2
    return w.case()


def c24rmw(d):
    """threads of several processes contend on shared locations"""
    w = thr_world(d, ((3, 2), (2, 3), (1, 1)))
    for k in ("ARMCI_USE_REQUEST_ATOMICS", "ARMCI_FLUSH_REQUEST_ATOMICS"):
        if d.bool(0.3):
            w.env[k] = d.choice(["1", "0"])
    w.init("thread 3", 3)
    inner = nest(d, w)
    np = w.np
    sizes = {r: 8 * d.int(1, 3) for r in range(np)}
    a = w.alloc(sizes, None, {r: [Zone(0, s, RAW)] for r, s in sizes.items()})
    w.allop("barrier")
    locs, used = [], set()
    for _ in range(d.int(1, 3)):
        t, bits = d.int(0, np - 1), d.choice([32, 64])
        n = bits // 8
        off = n * d.int(0, sizes[t] // n - 1)
        cells = {(t, x) for x in range(off, off + n)}
        if not cells & used:
            used |= cells
            locs.append((t, off, bits))
    hist = [[] for _ in locs]
    K = [d.int(1, 3) for _ in range(np)]
    if sum(K) == 1:
        K[0] = 2
    for r in range(np):
        w.op(r, "par %d" % K[r])
    uniq = 1000
    for r in range(np):
        bufs = []
        for k in range(K[r]):
            w.cur_th = k
            w.free_lb[r] = []
            for _ in range(d.int(1, 4)):
                d.span(9)
                i = d.int(0, len(locs) - 1)
                t, off, bits = locs[i]
                n, f = bits // 8, "<q" if bits == 64 else "<i"
                swap = d.bool(0.4)
                code = (2 if swap else 0) + (1 if bits == 64 else 0)
                inc = d.choice([1, 1, 2, -1, 1000003])
                uniq += 1
                b = w.lbuf(r, n, struct.pack(f, uniq))
                j = w.op(r, "rmw %d %s %s %d %d w" % (code, b.tok(0), Ref(a, t, off).tok(), inc, t))
                hist[i].append([r, j, code, inc, uniq, k])
                bufs.append(b)
                d.endspan()
    w.cur_th = None
    w.allop("endpar")
    w.sync("barrier")
    tags = {}
    for t in range(np):
        hx = ["%02x" % x for x in a.mem[t]]
        for q, off, bits in locs:
            if q == t:
                hx[off:off + bits // 8] = ["??"] * (bits // 8)
        tok = a.tok(t, 0)
        w.op(t, "abegin " + tok)
        w.dump(t, tok, "".join(hx), "memory around the atomic locations")
        tags[t] = "d%d" % w.nd
        w.op(t, "aend " + tok)
    for (t, off, bits), h in zip(locs, hist):
        if h:
            w.expect.append(["oracle", "rmwlin", {"bits": bits, "init": int.from_bytes(a.mem[t][off:off + bits // 8], "little"), "ops": h, "final": [t, tags[t], off]}])
    for _ in range(inner):
        w.allop("fini")
    w.finish(dumps=False)
    w.nontrivial = any(len({(x[0], x[5]) for x in h}) > 1 for h in hist)
    return w.case()


def c24prog(d):
    """whole-library programs with the progress thread asked for at any thread level"""
    w = base_world(d, ((4, 2), (3, 3), (1, 4), (1, 1)))
    lev = d.weighted([(5, 3), (1, 2), (1, 1), (1, 0)])
    w.cfg["thread"] = d.choice([3, 3, 3, 2, 0])
    switch_points(d, w, [30, 0, 5])
    tune(d, w, 0.2)
    progress_env(d, w)
    want = d.int(0, min(lev, w.cfg["thread"]))
    how = d.choice(["thread %d" % want, "thread %d" % want, "plain"])
    w.init(how, lev)
    inner = nest(d, w)
    g_start(w)
    c19_body(d, w, O19(), d.int(1, 3))
    w.sync("barrier")
    a_snapshot(d, w, "contents before the end")
    w.sync("barrier")
    for a in [a for a in w.allocs if a.live]:
        if a.gid is not None or d.bool(0.6):
            a_free(d, w, a, None)
    g_end(d, w)
    w.cfg["leakcheck"] = 1
    for _ in range(inner):
        w.allop("fini")
    w.finish(dumps=False)
    if min(lev, w.cfg["thread"]) == 3:
        w.labels.add("progress-thread-runs")
    w.nontrivial = w.nops > 0 and min(lev, w.cfg["thread"]) == 3
    return w.case()


reg(Prop("C24", [Group("threads", c24, 7000), Group("atomics", c24rmw, 2500), Group("progress", c24prog, 3000)],
         "threads: blocks in which 1-3 threads per process issue one-sided operations on disjoint or commuting data, fences and completions, while the first threads also do collective work "
         "(barriers, allocation and free, mutexes, message collectives); switch points at every MPI call and at random library basic blocks; all contents must equal the model's. atomics: threads of "
         "several processes contend on shared locations; the history must have a sequential explanation; in both, nested initializations at any level may surround the work. progress: whole-library programs with the progress thread enabled at every thread level; "
         "nothing may still run or be held after finalization. Non-trivial: at least two operations in thread blocks / a contended location / the progress thread runs.",
         builds=BUILDS,
         assumptions=["one thread per process uses mutexes (see the known finding)", "threads share no handle while a request is in flight", "collective calls are made by one thread per process"]))
