"""Synchronisation properties: C06, C08, C10, C11."""
from p_data import *
from ops import _prod


# ---------------------------------------------------------------- C06
def c06(d):
    w = base_world(d, ((3, 2), (4, 3), (3, 4)))
    tune(d, w, 0.25)
    for k in ("ARMCI_USE_REQUEST_ATOMICS", "ARMCI_FLUSH_REQUEST_ATOMICS"):
        if d.bool():
            w.env[k] = d.choice(["1", "0"])
    if d.bool(0.06):
        huge(d, w)
    w.init()
    np = w.np
    A = []
    for _ in range(d.int(1, 2)):
        gid = None
        if d.bool(0.2):
            gid = w.group(d.perm(d.subset(range(np), 2)))
        mem = w.groups[gid] if gid is not None else range(np)
        sizes = {r: 0 if d.bool(0.3) and r != list(mem)[0] else 8 * d.int(1, 4) for r in mem}
        A.append(w.alloc(sizes, gid, {r: [Zone(0, s, RAW)] if s else [] for r, s in sizes.items()}))
    w.allop("barrier")
    # locations: (alloc, target, offset, bits); disjoint
    locs, used = [], set()
    for _ in range(d.int(1, 4)):
        a = d.choice(A)
        ts = [r for r in a.members if a.mem.get(r)]
        t = d.choice(ts)
        bits = d.choice([32, 64])
        off = (bits // 8) * d.int(0, len(a.mem[t]) // (bits // 8) - 1)
        cells = {(a.id, t, x) for x in range(off, off + bits // 8)}
        if cells & used:
            continue
        used |= cells
        locs.append((a, t, off, bits))
    hist = {i: [] for i in range(len(locs))}
    uniq = 1000
    for r in range(np):
        lim = d.int(1, 7)
        for _ in range(lim):
            d.span(9)
            i = d.int(0, len(locs) - 1)
            a, t, off, bits = locs[i]
            if r in a.members:
                n = bits // 8
                f = "<q" if bits == 64 else "<i"
                swap = d.bool(0.4)
                code = (2 if swap else 0) + (1 if bits == 64 else 0)
                inc = d.choice([1, 1, 1, 2, -1, 0, 1000003, -2147483648, 2147483647])
                uniq += 1
                loc = uniq if not d.bool(0.2) else d.choice([0, -1, (1 << (bits - 1)) - 1, -(1 << (bits - 1)), 0x0102030405060708 & ((1 << (bits - 1)) - 1)])
                front = d.choice([0, 8])
                back = d.choice([0, 8])
                b = w.lbuf(r, front + n + back, bytes([0xa5] * front) + struct.pack(f, loc) + bytes([0xa5] * back))
                P = "!" if d.bool(0.1) else ""
                k = w.op(r, "%srmw %d %s %s %d %d w" % (P, code, b.tok(front), Ref(a, t, off).tok(), inc, t))
                hist[i].append([r, k, code, inc, loc])
                if front:
                    w.dump(r, b.tok(0), bytes([0xa5] * front), "bytes before the local result")
                if back:
                    w.dump(r, b.tok(front + n), bytes([0xa5] * back), "bytes after the local result")
                w.lbfree(b)
                w.labels.add("rmw:" + RMW[code])
                if t == r:
                    w.labels.add("self-target")
            if d.bool(0.15):
                w.op(r, d.choice(["progress", "spin 1", "spin 3"]))
            d.endspan()
    w.sync(d.choice(["barrier", "afence", "p2p"]))
    tags = {}
    for a in A:
        for r in a.members:
            if a.mem.get(r):
                exp = list(a.mem[r])
                hx = ["%02x" % x for x in exp]
                for al, t, off, bits in locs:
                    if al is a and t == r:
                        for x in range(off, off + bits // 8):
                            hx[x] = "??"
                t = a.tok(r, 0)
                w.op(r, "abegin " + t)
                w.dump(r, t, "".join(hx), "memory around the atomic locations")
                tags[(a.id, r)] = "d%d" % w.nd
                w.op(r, "aend " + t)
    for i, (a, t, off, bits) in enumerate(locs):
        init = int.from_bytes(a.mem[t][off:off + bits // 8], "little")
        if hist[i]:
            w.expect.append(["oracle", "rmwlin", {"bits": bits, "init": init, "ops": hist[i], "final": [t, tags[(a.id, t)], off]}])
    w.finish(dumps=False)
    ranks = max([len({x[0] for x in h}) for h in hist.values()] + [0])
    w.labels.add("contenders:%d" % ranks)
    w.nontrivial = ranks >= 2
    if d.bool(0.35):
        preempt(d, w)
    return w.case()


class O6(Opt):
    scalar = 1.0
    types = [INT, LONG]
    rmw_only = True
    ops = (2, 8)
    groups = 0.2


def c06seq(d):
    w = base_world(d, NPS)
    tune(d, w, 0.3)
    for k in ("ARMCI_USE_REQUEST_ATOMICS", "ARMCI_FLUSH_REQUEST_ATOMICS"):
        if d.bool():
            w.env[k] = d.choice(["1", "0"])
    o = O6()
    if d.bool(0.15):
        huge(d, w)
    w.init()
    make_allocs(d, w, o)
    w.allop("barrier")
    run_phases(d, w, o)
    w.finish()
    w.nontrivial = w.nops > 0
    return w.case()


reg(Prop("C06", [Group("histories", c06, 6500), Group("sequential", c06seq, 1500)], builds=V13M, rule=
         "histories: 2-4 processes issue up to 7 fetch-and-adds and swaps each on 1-4 shared int and long locations without synchronisation; the recorded history (arguments, results, "
         "real-time intervals, final contents) is searched for a sequential explanation. Non-trivial: some location is used by at least two processes. sequential: race-free mixtures "
         "compared with the model. Non-trivial: at least one operation."))


# ---------------------------------------------------------------- C08
class O8(Opt):
    nb = 0.4
    ops = (1, 4)
    shared_local = 0.05
    kinds = [(3, "put"), (1, "get"), (3, "acc")]
    local_dump = 0.1
    nallocs = (1, 4)
    groups = 0.4


def barrier_marked(d, w, kind, count, members=None, gid=None):
    """a barrier whose exclusion property is observed"""
    key = 47 if gid is None else 40 + gid % 7
    ranks = range(w.np) if members is None else members
    for r in ranks:
        w.op(r, "mark %d" % key)
        w.op(r, ("%s%s" % ("!" if d.bool(0.2) else "", kind)) if gid is None else "%smgbar %d" % ("!" if d.bool(0.2) else "", gid))
        w.op(r, "chk %d %d" % (key, count))


def c08many(d):
    """many live allocations"""
    return c08(d, True)


def c08(d, many=False):
    w = base_world(d, ((3, 2), (4, 3), (2, 4)))
    w.cfg["transport"] = d.weighted([(4, 2), (1, 1)])
    w.weak = w.cfg["transport"] == 2
    if d.bool(0.6):
        w.cfg["lazy"] = 3
    tune(d, w, 0.3)
    if d.bool(0.25):
        w.env["ARMCI_MSG_BARRIER_SYNCS"] = d.choice(["1", "0"])
    o = O8()
    if many:
        o.small, o.nallocs = True, (8, 36)
    w.init()
    make_allocs(d, w, o)
    bar = 0
    gcount = {}
    w.allop("barrier")
    zones = [(a, t, z) for a in w.allocs for t in a.members for z in a.zones[t]]
    for a, t, z in zones:
        z.role, z.owner = "x", d.choice(a.members)
    hs = [[] for _ in range(w.np)]
    tag = 100
    fences = 0
    for _ in range(d.int(2, 9)):
        d.span(7)
        k = d.weighted([(6, "pass"), (1, "afence"), (1, "barrier"), (1, "gbar")])
        for r in d.perm(range(w.np))[:d.int(1, 2)]:
            for _ in range(d.int(*o.ops)):
                d.span(8)
                gen_op(d, w, r, o, hs[r])
                d.endspan()
        if k == "barrier":
            for r in range(w.np):
                w.complete_all(r)
                w.unf[r] = []
            bar += 1
            barrier_marked(d, w, "barrier", bar * w.np)
            for a, t, z in zones:
                z.owner = d.choice(a.members)
            w.labels.add("sync:barrier")
        elif k == "gbar" and w.groups:
            g = d.choice(sorted(w.groups))
            gcount[g] = gcount.get(g, 0) + 1
            barrier_marked(d, w, "", gcount[g] * len(w.groups[g]), w.groups[g], g)
            w.labels.add("sync:group-barrier")
        else:
            owners = sorted({z.owner for a, t, z in zones if z.owner >= 0})
            if not owners:
                d.endspan()
                continue
            o1 = d.choice(owners)
            mine = [x for x in zones if x[2].owner == o1]
            if k == "afence":
                if d.bool(0.3):
                    w.complete_all(o1)
                w.op(o1, "%safence" % ("!" if d.bool(0.2) else ""))
                give = mine
                w.labels.add("sync:afence")
                w.unf[o1] = []
            else:
                t = d.choice(sorted({x[1] for x in mine}))
                if d.bool(0.3):
                    w.complete_all(o1)
                w.op(o1, "%sfence %d" % ("!" if d.bool(0.2) else "", t))
                give = [x for x in mine if x[1] == t]
                w.labels.add("sync:fence")
                w.unf[o1] = [x for x in w.unf[o1] if x[0] != t]
            fences += 1
            give = [x for x in give if d.bool(0.8)] or give[:1]
            # non-blocking gets of the zones must have landed before somebody else writes
            for p in list(w.pend[o1]):
                if p in w.pend[o1] and any(a[0] == (id(x[0]), x[1]) and (a[3] == "r" or x[1] == o1 or p["get"]) for a in p["acc"] for x in give):
                    w.complete(o1, p)
            msg = d.bool(0.3)
            byq = {}
            for x in give:
                qs = [q for q in x[0].members if q != o1]
                # the target itself reads by loads; others by one-sided gets
                if not qs:
                    continue
                q = x[1] if x[1] in qs and d.bool(0.5) else d.choice(qs)
                byq.setdefault(q, []).append(x)
            for q in sorted(byq):
                tag += 1
                if msg:
                    w.op(o1, "msgtok %d" % q)
                    w.op(q, "msgrtok %d" % o1)
                else:
                    w.op(o1, "tok %d %d" % (q, tag))
                    w.op(q, "rtok %d %d" % (o1, tag))
                for a, t, z in byq[q]:
                    z.owner = q
                    full = Ref(a, t, z.off, z.len)
                    w.settle(q, [(full.key(), z.off, z.off + z.len, "r")])
                    if t == q and d.bool(0.7):
                        w.op(q, "abegin " + full.tok())
                        w.dump(q, full.tok(), bytes(full.mem[z.off:z.off + z.len]), "owner's loads after a fence by process %d" % o1)
                        w.op(q, "aend " + full.tok())
                        w.labels.add("observed:load")
                    elif d.bool(0.8):
                        b = w.lbuf(q, z.len)
                        w.op(q, "get %s %s %d %d" % (full.tok(), b.tok(0), z.len, t))
                        b.mem[:] = full.mem[z.off:z.off + z.len]
                        w.dump(q, b.tok(0), bytes(b.mem), "get from process %d after a fence by process %d" % (t, o1))
                        w.lbfree(b)
                        w.labels.add("observed:get")
        d.endspan()
    for r in range(w.np):
        w.complete_all(r)
        w.unf[r] = []
    bar += 1
    barrier_marked(d, w, "barrier", bar * w.np)
    w.finish()
    w.nontrivial = fences > 0 and w.nops > 0
    return w.case()


def c08bar(d):
    """barriers of every kind hold everybody"""
    w = base_world(d, ((3, 2), (4, 3), (3, 4), (1, 5)))
    tune(d, w, 0.2)
    if d.bool(0.4):
        w.env["ARMCI_MSG_BARRIER_SYNCS"] = d.choice(["1", "0"])
    w.init()
    for _ in range(d.int(0, 3)):
        w.group(d.perm(d.subset(range(w.np), 1)))
    if d.bool():
        w.alloc({r: d.int(0, 16) for r in range(w.np)})
    n, g = 0, {}
    for _ in range(d.int(1, 6)):
        for r in range(w.np):
            if d.bool(0.3):
                w.op(r, "spin %d" % d.int(1, 9))
        k = d.choice(["barrier", "mbar", "group"])
        if k == "group" and w.groups:
            gid = d.choice(sorted(w.groups))
            g[gid] = g.get(gid, 0) + 1
            barrier_marked(d, w, "", g[gid] * len(w.groups[gid]), w.groups[gid], gid)
        else:
            n += 1
            barrier_marked(d, w, "mbar" if k == "mbar" else "barrier", n * w.np)
        w.labels.add("barrier:" + k)
    w.nontrivial = True
    w.finish()
    return w.case()


reg(Prop("C08", [Group("fences", c08, 6000), Group("many-windows", c08many, 400), Group("barriers", c08bar, 1500)],
         "fences: processes write zones they own on several world and group allocations by all forms of put and accumulate (also still pending non-blocking ones), fence one target, "
         "fence all or enter a barrier, then hand zones to another process by a message, which reads them by loads or gets at once; remote effects are delayed until MPI completion calls force them. "
         "Non-trivial: at least one fence and one operation. barriers: no process may leave a barrier before all have entered (marks counted in shared harness memory)."))


# ---------------------------------------------------------------- C10
def c10(d):
    w = base_world(d, ((3, 2), (4, 3), (2, 4)))
    w.cfg["transport"] = d.weighted([(5, 2), (1, 1), (1, 0)])
    w.weak = w.cfg["transport"] == 2
    if d.bool(0.5):
        w.cfg["lazy"] = 3
    tune(d, w, 0.4)
    np = w.np
    w.init()
    A = []
    for _ in range(d.int(1, 4)):
        gid = w.group(d.perm(d.subset(range(np), 2))) if d.bool(0.4) else None
        mem = w.groups[gid] if gid is not None else list(range(np))
        sizes, zones = {}, {}
        for r in mem:
            if d.bool(0.1) and r != mem[0]:
                sizes[r], zones[r] = 0, []
                continue
            zs, off = [], 0
            for _ in range(d.int(1, 3)):
                if d.bool(0.5):
                    off += -off % 4
                    zs.append(Zone(off, 4 * d.int(1, 3), INT))     # flags
                else:
                    zs.append(Zone(off, d.int(1, d.choice([16, 64, 300])), RAW))
                off += zs[-1].len
            sizes[r], zones[r] = off, zs
        A.append(w.alloc(sizes, gid, zones))
    w.allop("barrier")
    rounds = 0
    val = 1 << 20
    for _ in range(d.int(1, 3)):
        d.span(7)
        busy = set()
        plan = []
        for src in range(np):
            for _ in range(d.int(0, 2)):
                t = d.int(0, np - 1)
                D = [(a, z) for a in A if src in a.members and t in a.members for z in a.zones[t] if z.type == RAW and id(z) not in busy]
                F = [(a, z) for a in A if src in a.members and t in a.members for z in a.zones[t] if z.type == INT and id(z) not in busy]
                if not D or not F:
                    continue
                da, dz = d.choice(D)
                fa, fz = d.choice(F)
                obs = [q for q in da.members if q in fa.members]
                q = t if d.bool(0.5) and t in obs else d.choice(obs)
                if q == src and q != t:
                    continue
                busy |= {id(dz), id(fz)}
                plan.append((src, t, q, da, dz, fa, fz))
        if not plan:
            d.endspan()
            continue
        for src, t, q, da, dz, fa, fz in plan:
            dz.role, dz.owner = "x", src
            for _ in range(d.int(0, 2)):
                # earlier traffic on the same zone
                x = Opt()
                x.kinds, x.nb, x.shared_local = [(1, "put")], 0.3, 0.0
                save = [(z, z.role, z.owner) for a in A for r in a.members for z in a.zones[r] if z is not dz]
                for z, _, _ in save:
                    z.role, z.owner = "none", -1
                gen_op(d, w, src, x, [])
                for z, ro, ow in save:
                    z.role, z.owner = ro, ow
            rounds += 1
            val += 1
            v = val if d.bool(0.8) else -val
            fo = fz.off + 4 * d.int(0, fz.len // 4 - 1)
            flag = Ref(fa, t, fo, 4)
            P = "!" if d.bool(0.15) else ""
            if d.bool():
                n = d.int(1, dz.len)
                off = dz.off + d.int(0, dz.len - n)
                rem = Ref(da, t, off, n)
                loc = local_side(d, w, src, n, RAW, "put", [], PRIV)
                pairs = [(loc, rem, n)]
                line = "%sputf %s %s %d %s %d %d" % (P, loc.tok(), rem.tok(), n, flag.tok(), v, t)
                w.labels.add("putf")
            else:
                n0, counts = shape(d, dz.len, 1, 4)
                rs, rext = strides_of(d, 1, n0, counts, dz.len)
                ls, lext = strides_of(d, 1, n0, counts, max(n0 * _prod(counts), rext * 2))
                if rext > dz.len:
                    rounds -= 1
                    plan = [p for p in plan if p[4] is not dz]
                    continue
                off = dz.off + d.int(0, dz.len - rext)
                rem = Ref(da, t, off, rext)
                loc = local_side(d, w, src, lext, RAW, "put", [], PRIV)
                pairs = [(Ref(loc.sp, src, loc.off + y, n0), Ref(da, t, off + x, n0), n0)
                         for x, y in zip(blocks(n0, counts, rs), blocks(n0, counts, ls))]
                line = "%sputsf %s %s %s %s %s %d %s %d" % (P, loc.tok(), ints(ls), rem.tok(), ints(rs), ints([n0] + counts), t, flag.tok(), v)
                w.labels.add("putsf")
            w.settle(src, w.accesses("put", pairs) + [(rem.key(), dz.off, dz.off + dz.len, "w")])
            w.transfer(src, "put", t, pairs)
            w.op(src, line)
            w.nops += 1
            flag.mem[fo:fo + 4] = struct.pack("<i", v)
            # the observer
            dref = Ref(da, t, dz.off, dz.len)
            if q == t:
                if d.bool(0.7):
                    w.op(q, "poll %s %d %d" % (flag.tok(), v, d.int(0, 1)))
                else:
                    w.op(q, "pollget %s %d %d" % (flag.tok(), v, t))
                if d.bool(0.8):
                    if d.bool():
                        w.op(q, "abegin " + dref.tok())
                        w.dump(q, dref.tok(), bytes(dref.mem[dz.off:dz.off + dz.len]), "data loaded after the flag was seen")
                        w.op(q, "aend " + dref.tok())
                    else:
                        w.dump(q, dref.tok(), bytes(dref.mem[dz.off:dz.off + dz.len]), "data loaded after the flag was seen")
                    w.labels.add("observed:load")
                    continue
            else:
                w.op(q, "pollget %s %d %d" % (flag.tok(), v, t))
            b = w.lbuf(q, dz.len)
            w.op(q, "get %s %s %d %d" % (dref.tok(), b.tok(0), dz.len, t))
            b.mem[:] = dref.mem[dz.off:dz.off + dz.len]
            w.dump(q, b.tok(0), bytes(b.mem), "data read after the flag was seen")
            w.lbfree(b)
            w.labels.add("observed:get")
        w.sync(d.choice(["barrier", "afence", "p2p"]))
        d.endspan()
    w.finish()
    w.nontrivial = rounds > 0
    return w.case()


class PRIV(Opt):
    shared_local = 0.0


reg(Prop("C10", [Group("flags", c10, 6500)],
         "concurrent put-with-flag calls (contiguous and strided, after other puts to the same zone) on disjoint zones of 1-4 allocations with flags in the same or other allocations; an observer "
         "(the target by loads, or anybody by gets) polls for the flag's value and immediately reads the whole data zone. Remote completion is delayed and reordered arbitrarily. "
         "Non-trivial: at least one flag put observed."))


# ---------------------------------------------------------------- C11
def c11many(d):
    return c11(d, True)


def c11(d, many=False):
    w = base_world(d, ((3, 2), (4, 3), (3, 4), (1, 5)))
    w.cfg["stick"] = d.choice([0, 50, 80])
    np = w.np
    tune(d, w, 0.15)
    w.init()
    # shared counters protected by the mutexes
    c = w.alloc({r: 40 * 4 for r in range(np)}, None, {r: [Zone(0, 160, INT)] for r in range(np)}, fill=False)
    for r in range(np):
        c.mem[r][:] = bytes(160)
        w.store(r, Ref(c, r, 0), bytes(160))
    sets = []     # (kind, id, members, counts, base key)
    if d.bool(0.8):
        counts = {r: d.int(0, 40 if many else 3) for r in range(np)}
        if not any(counts.values()):
            counts[d.int(0, np - 1)] = 1
        sets.append(["g", -1, list(range(np)), counts])
    for i in range(d.int(0 if sets else 1, 2)):
        gid = w.group(d.perm(d.subset(range(np), 1)))
        mem = w.groups[gid]
        counts = {r: d.int(0, 40 if many else 2) for r in mem}
        if not any(counts.values()):
            counts[mem[0]] = 1
        sets.append(["h", i, mem, counts, gid])
    locks = []    # (key, set, mutex, proc)
    for s in sets:
        for r in s[2]:
            if s[0] == "g":
                w.op(r, "%smcreate %d" % ("!" if d.bool(0.1) else "", s[3][r]))
            else:
                w.op(r, "mxcreate %d %d %d" % (s[1], s[3][r], s[4]))
        for p in s[2]:
            locks += [(s, m, p) for m in range(s[3][p])]
    if len(locks) > 38:
        locks = [locks[i] for i in sorted(d.perm(range(len(locks)))[:d.choice([38, 6])])]
    locks = [(k,) + l for k, l in enumerate(locks)]
    w.allop("barrier")
    rounds = d.int(1, 2)
    cs = 0
    cont = {}
    total = {}
    for rd in range(rounds):
        d.span(7)
        # an application message that is under way while its receiver waits for locks
        cross = None
        if np > 1 and d.bool(0.25):
            ab = d.perm(range(np))[:2]
            cross = ab[0], ab[1], 100 + d.int(0, 2)
            w.labels.add("crossing-message")
        for r in range(np):
            if cross and r == cross[0]:
                w.op(r, "msgtok %d %d" % cross[1:])
            mine = [l for l in locks if r in l[1][2]]
            for _ in range(d.int(0, 5)):
                if not mine:
                    break
                d.span(8)
                hold = sorted({d.choice(mine)[0] for _ in range(d.weighted([(4, 1), (2, 2), (1, 3)]))})
                L = [locks[k] for k in hold]

                def emit(what, l):
                    k, s, m, p = l
                    if s[0] == "g":
                        w.op(r, "%s%s %d %d %d" % ("!" if d.bool(0.1) else "", what, m, p, k))
                    else:
                        w.op(r, "mx%s%s %d %d %d %d" % ("try" if what == "lock" and d.bool(0.15) else "", what, s[1], m, p, k))
                for l in L:
                    emit("lock", l)
                    cont.setdefault(l[0], set()).add(r)
                cs += 1
                if d.bool(0.5):
                    w.op(r, "spin %d" % d.int(1, 6))
                if d.bool(0.5):
                    # non-atomic read-modify-write of the counter of the first lock
                    k = L[0][0]
                    host = k % np
                    b = w.lbuf(r, 4, bytes(4))
                    ref = Ref(c, host, 4 * k)
                    w.op(r, "get %s %s 4 %d" % (ref.tok(), b.tok(0), host))
                    w.op(r, "incr %s 1" % b.tok(0))
                    if d.bool(0.3):
                        w.op(r, "spin 2")
                    w.op(r, "put %s %s 4 %d" % (b.tok(0), ref.tok(), host))
                    w.op(r, "fence %d" % host)
                    w.lbfree(b)
                    total[k] = total.get(k, 0) + 1
                    w.labels.add("counter-in-critical-section")
                if d.bool(0.3):
                    L.reverse()
                for l in L:
                    emit("unlock", l)
                if len(L) > 1:
                    w.labels.add("nested-locks")
                d.endspan()
            if cross and r == cross[1]:
                w.op(r, "msgrtok %d %d" % (cross[0], cross[2]))
        if d.bool(0.5):
            w.sync("barrier")
        # independence: p holds one mutex while q takes and releases another and tells p
        if d.bool(0.4) and len(locks) > 1 and np > 1:
            w.sync("barrier")
            la, lb = d.choice(locks), d.choice(locks)
            if la[0] != lb[0]:
                ps = [r for r in la[1][2]]
                p = d.choice(ps)
                qs = [r for r in lb[1][2] if r != p]
                if qs:
                    q = d.choice(qs)

                    def e2(r, what, l):
                        k, s, m, pr = l
                        w.op(r, "lock %d %d %d" % (m, pr, k) if what == "lock" and s[0] == "g" else
                             "unlock %d %d %d" % (m, pr, k) if s[0] == "g" else "mx%s %d %d %d %d" % (what, s[1], m, pr, k))
                    e2(p, "lock", la)
                    w.op(p, "tok %d 500" % q)
                    w.op(q, "rtok %d 500" % p)
                    e2(q, "lock", lb)
                    e2(q, "unlock", lb)
                    w.op(q, "tok %d 501" % p)
                    w.op(p, "rtok %d 501" % q)
                    e2(p, "unlock", la)
                    w.labels.add("independence")
                    w.sync("barrier")
        d.endspan()
    w.sync("barrier")
    for k, n in total.items():
        c.mem[k % np][4 * k:4 * k + 4] = struct.pack("<i", n)
    for s in sets if d.bool() else sets[::-1]:
        for r in s[2]:
            w.op(r, "mdestroy" if s[0] == "g" else "mxdestroy %d" % s[1])
    if d.bool(0.2) and sets[0][0] == "g":
        # a second life of the global set
        w.allop("mcreate 1")
        for r in range(np):
            for _ in range(d.int(0, 2)):
                h = d.int(0, np - 1)
                w.op(r, "lock 0 %d %d" % (h, 38))if h == 0 else w.op(r, "lock 0 0 38")
                w.op(r, "unlock 0 0 38")
        w.sync("barrier")
        w.allop("mdestroy")
        w.labels.add("recreated")
    w.finish()
    m = max([len(x) for x in cont.values()] + [0])
    w.labels.add("contenders:%d" % m)
    w.nontrivial = m >= 2 and cs >= 2
    if d.bool(0.15):
        preempt(d, w)
    return w.case()


reg(Prop("C11", [Group("locks", c11, 6000), Group("many-mutexes", c11many, 500)], builds=V13M, rule=
         "2-8 processes run generated lock/unlock programs (nested in a global order, released in any order) over the global mutex set and group mutex handles with 0-3 (many-mutexes: up to 40) mutexes per process, with "
         "random scheduling at every MPI call; exclusion is checked on every grant, counters updated non-atomically under a mutex must not lose updates, a process holding one mutex waits "
         "for another process to pass through a different one, and deadlock or livelock of the simulated job is a failure. Non-trivial: some mutex is contended by two or more processes."))
