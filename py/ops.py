"""Generators of one-sided operations and of race-free phase programs."""
from model import *


class Opt:
    """what a property wants from the generator"""
    kinds = [(3, "put"), (3, "get"), (2, "acc")]
    forms = [(3, "c"), (2, "s"), (2, "v")]
    nb = 0.3            # probability that an operation is non-blocking
    shared_local = 0.2  # local side in shared memory
    types = [RAW, INT, LONG, DBL, FLT, CPL, DCP]
    maxlv = 4
    ops = (1, 5)        # operations per rank and phase
    phases = (1, 3)
    nallocs = (1, 3)
    groups = 0.25       # probability of a group allocation
    prefix_p = 0.1
    overlap_acc = False  # overlapping accumulate segments (segment checks on)
    multi_alloc = False  # one vector call spanning allocations (segment checks on)
    perm_levels = True
    src_alias = True
    local_dump = 0.3
    scalar = 0.0        # probability of a value operation or read-modify-write
    rmw_only = False
    only_values = False  # no read-modify-write
    flag = 0.0          # probability of a put with flag
    role_w = [(6, "x"), (1, "ro"), (2, "acc")]
    scribble = 0.5      # overwrite or free local sources after completion
    ident = 0.0         # extra probability of the identity scale
    hot = False         # a single zone of one to three elements per process
    small = False       # tiny zones: many overlapping accesses
    big = False         # some zones of several kilobytes
    handles = False     # exercise handle life cycles (aggregate, re-init, free, test)
    dla = 0.0           # probability of direct access by the owner
    odd_unit = False    # arbitrary strides for levels of count one
    wide = False        # zones of up to 2^wide bytes, hundreds of blocks or segments
    manyreq = False     # with wide: vectors of hundreds of segments, no progress before it is forced
    huge = False        # gaps of gigabytes inside allocations
    syncs = None        # synchronisations between phases


def sched(d, w, weak_ok=True, model=True, tear=True):
    """schedule and simulated-MPI parameters"""
    w.seed = d.seed()
    c = w.cfg
    c["policy"] = d.int(0, 2)
    c["stick"] = d.choice([50, 0, 80, 95])
    tr = d.weighted([(4, 1), (2, 0), (4, 2)] if weak_ok else [(4, 1), (1, 0)])
    c["transport"] = tr
    w.weak = tr == 2
    c["lazy"] = d.choice([0, 3, 2, 1])
    c["vamode"] = d.int(0, 2)
    c["place"] = d.int(0, 3)
    c["tear"] = d.int(0, 1) if tear else 0
    c["poison"] = d.int(0, 1)
    c["collsync"] = d.int(0, 1)
    c["rend"] = d.int(0, 2)
    c["testlag"] = d.choice([0, 1, 3])
    w.labels.add("transport:%s" % ["eager", "fifo", "weak"][tr])


def tune(d, w, p=0.5, strided=True, shr=True, flush=True):
    """tuning environment: each option is present with some probability"""
    e = w.env
    if d.bool(p):
        e["ARMCI_IOV_METHOD"] = d.choice(["AUTO", "CONSRV", "BATCHED", "DIRECT"])
    if strided and d.bool(p):
        e["ARMCI_STRIDED_METHOD"] = d.choice(["IOV", "DIRECT"])
    if d.bool(p * 0.6):
        e["ARMCI_IOV_BATCHED_LIMIT"] = str(d.choice([0, 1, 2, 3, 5]))
    if d.bool(p * 0.6):
        e["ARMCI_IOV_DTYPE_CHUNK"] = str(d.choice([0, 1, 2, 3, 4, 7]))
    if shr and d.bool(p * 0.7):
        e["ARMCI_SHR_BUF_METHOD"] = d.choice(["NOGUARD", "COPY"])
        w.copy_mode = e["ARMCI_SHR_BUF_METHOD"] == "COPY"
    if d.bool(p * 0.4):
        e["ARMCI_USE_WIN_ALLOCATE"] = d.choice(["1", "0"])
    if d.bool(p * 0.4):
        e["ARMCI_RMA_ATOMICITY"] = d.choice(["0", "1"])
    if flush and d.bool(p * 0.3):
        e["ARMCI_NO_FLUSH_LOCAL"] = d.choice(["0", "1"])
    if d.bool(p * 0.3):
        e["ARMCI_CACHE_RANK_TRANSLATION"] = d.choice(["1", "0"])
    if d.bool(p * 0.3):
        e["ARMCI_RMA_NOCHECK"] = d.choice(["1", "0"])
    for k in ("ARMCI_IOV_METHOD", "ARMCI_STRIDED_METHOD", "ARMCI_SHR_BUF_METHOD", "ARMCI_RMA_ATOMICITY"):
        if k in e:
            w.labels.add("%s=%s" % (k[6:], e[k]))


def iov_checks(d, w, p=0.3):
    if d.bool(p):
        w.env["ARMCI_IOV_CHECKS"] = "1"
        w.labels.add("IOV_CHECKS")
        return True
    return False


def make_allocs(d, w, o):
    n = d.int(*o.nallocs)
    for i in range(n):
        gid = None
        if hasattr(w, "gv"):
            G = sorted(g for g in w.groups if g not in w.dead_groups) if d.bool(o.groups) else []
            gid = d.choice(G) if G else None
        elif w.np > 1 and d.bool(o.groups):
            mem = d.perm(d.subset(range(w.np), 1))
            gid = w.group(mem)
            w.labels.add("group-alloc")
        members = w.groups[gid] if gid is not None else list(range(w.np))
        zones, sizes = {}, {}
        same = d.bool(0.4)
        first = None
        for r in members:
            if same and first:
                zs = [Zone(z.off, z.len, z.type) for z in first[0]]
                sz = first[1]
            elif d.bool(0.12) and r != members[0]:
                zs, sz = [], 0
                w.labels.add("zero-size")
            else:
                if o.hot:
                    t = d.choice(o.types)
                    zs = [Zone(0, ESZ[t] * d.int(1, 3), t)]
                    sz = zs[0].len
                elif o.wide:
                    zs, sz = wide_zones(d, o.types, o.wide)
                else:
                    zs, sz = zones_for(d, o.big, o.types, o.small)
                first = first or (zs, sz)
            zones[r], sizes[r] = zs, sz
        w.alloc(sizes, gid, zones)


def assign_roles(d, w, o):
    for a in w.allocs:
        if not a.live:
            continue
        for r in a.members:
            for z in a.zones[r]:
                if not w.uses(z):
                    continue
                k = d.weighted(o.role_w)
                if k == "acc" and (z.type == RAW or not any(x == "acc" for _, x in o.kinds)):
                    k = "x"
                z.role = k
                z.owner = d.choice(a.members) if k == "x" else -1
                if k == "acc":
                    w.labels.add("shared-acc-zone")


def targets(w, r, kind):
    out = []
    for a in w.allocs:
        if not a.live or r not in a.members:
            continue
        for t in a.members:
            if t == r and w.no_self:
                continue
            for z in a.zones[t]:
                if not w.uses(z):
                    continue
                if (z.role == "x" and z.owner == r and (kind != "acc" or z.type != RAW)) or \
                   (z.role == "ro" and kind == "get") or (z.role == "acc" and kind == "acc"):
                    out.append((a, t, z))
    return out


def local_side(d, w, r, n, t, kind, avoid, o):
    """a local range of n bytes valid for elements of type t.  kind: get writes it.
    avoid: [(key, lo, hi)] ranges it may not overlap.  Returns Ref"""
    if d.bool(min(1.0, 2 * o.shared_local) if w.copy_mode else o.shared_local):
        c = []
        for a in w.allocs:
            if a.live and r in a.members:
                for z in a.zones[r]:
                    if w.uses(z) and z.len >= n and ((z.role == "x" and z.owner == r) or (z.role == "ro" and kind != "get")) \
                            and (z.type == t or (t == RAW and kind != "get")):
                        c.append((a, z))
        if c:
            a, z = d.choice(c)
            e = 1 if t == RAW else ESZ[t]
            off = z.off + e * d.int(0, (z.len - n) // e)
            ref = Ref(a, r, off, n)
            if not any(k == ref.key() and lo < off + n and off < hi for k, lo, hi in avoid):
                w.labels.add("shared-local")
                return ref
    e = 1 if t == RAW else ESZ[t]
    front = d.weighted([(3, 0), (1, 1), (1, 2)])
    front = [0, 3, 8][front] if e == 1 else [0, e, 2 * e][front]
    back = d.weighted([(3, 0), (1, 1)]) * 5
    b = w.lbuf(r, n + front + back, pat(t, w.newsalt(), n + front) + bytes([0xa5] * back), armci=d.bool(0.08))
    return Ref(b, r, front, n)


def dump_ref(w, r, ref, why, whole=True):
    """observe a local range by direct loads, including the bytes around it"""
    if isinstance(ref.sp, LB):
        if len(ref.mem):
            w.dump(r, ref.sp.tok(0), bytes(ref.mem), why)
    elif ref.sp.live:       # the buffer of a transfer of nothing may have been freed before its request completed
        t = Ref(ref.sp, r, ref.off)
        w.settle(r, [(ref.key(), ref.off, ref.off + ref.len, "r")])
        w.op(r, "abegin " + t.tok())
        for x, y in ref.sp.spans(r, ref.off, ref.len) or [(ref.off, ref.off)]:
            w.dump(r, Ref(ref.sp, r, x).tok(), bytes(ref.mem[x:y]), why)
        w.op(r, "aend " + t.tok())


class XL(Opt):
    shared_local = 0.0


def grid_allocs(d, w, o):
    """allocations of a few islands of memory, gigabytes apart"""
    for _ in range(d.int(*o.nallocs)):
        gid = None
        if w.np > 1 and d.bool(o.groups):
            gid = w.group(d.perm(d.subset(range(w.np), 1)))
        zones, sizes, grid = {}, {}, {}
        same = d.bool(0.5)
        g = None
        for r in (w.groups[gid] if gid is not None else range(w.np)):
            if not (same and g):
                t = d.choice(o.types)
                e = 1 if t == RAW else ESZ[t]
                s = e * d.int(1, 12) * d.choice([1, 2, 8])
                I, J = d.choice([(2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (4, 1), (1, 4)])
                while True:
                    S1, S2 = (d.choice([(1 << 31) - 1, 1 << 30, 3 << 29, (1 << 31) - 256, d.int(1 << 28, (1 << 31) - 1), s + d.int(0, 300)]) // e * e
                              for _ in "12")
                    pos = sorted(i * S1 + j * S2 for i in range(I) for j in range(J))
                    if all(y - x >= s for x, y in zip(pos, pos[1:])):
                        break
                g = (t, s, I, J, S1, S2)
            t, s, I, J, S1, S2 = g
            grid[r] = (I, J, s, S1, S2)
            zones[r] = [Zone(0, I * J * s, t)]
            sizes[r] = I * J * s
        w.stretch = lambda r, zs: [((i * grid[r][1] + j) * grid[r][2], i * grid[r][3] + j * grid[r][4])
                                   for i in range(grid[r][0]) for j in range(grid[r][1])]
        w.alloc(sizes, gid, zones).grid = grid


def huge_strides(d, o, nps=((2, 3), (3, 2))):
    w = base_world(d, nps)
    tune(d, w, 0.5)
    w.cfg["big"] = 1
    w.env["ARMCI_IOV_METHOD"] = d.choice(["CONSRV", "BATCHED"])
    w.labels.add("huge-window")
    w.init()
    grid_allocs(d, w, o)
    w.allop("barrier")
    run_phases(d, w, o)
    w.finish()
    w.nontrivial = w.nops > 0
    return w


def gen_op(d, w, r, o, nbh):
    """one operation of rank r; nbh: list of open handles of r"""
    if o.scalar and d.bool(o.scalar):
        return gen_scalar(d, w, r, o)
    if o.flag and d.bool(o.flag):
        return gen_flag(d, w, r, o)
    if o.dla and d.bool(o.dla):
        return gen_dla(d, w, r, o)
    kind = d.weighted(o.kinds)
    T = targets(w, r, kind)
    if not T:
        return False
    a, t, z = d.choice(T)
    e = 1 if z.type == RAW else ESZ[z.type]
    form = d.weighted(o.forms)
    # a typed zone may also be transferred in whole elements by put and get
    dt = z.type if kind == "acc" else None
    sc = None
    if kind == "acc":
        p = max(o.ident or 0, 0.4 if w.copy_mode else 0.15)
        sc = SCALES[dt][0] if d.bool(p) else d.choice(SCALES[dt])
    P = "!" if d.bool(o.prefix_p) else ""
    pairs, local = [], None
    if form == "c":
        n = e * d.int(1, z.len // e)
        off = z.off + e * d.int(0, (z.len - n) // e)
        rem = Ref(a, t, off, n)
        local = local_side(d, w, r, n, z.type, kind, [(rem.key(), off, off + n)], o)
        pairs = [(rem, local, n)] if kind == "get" else [(local, rem, n)]
        src, dst = pairs[0][0], pairs[0][1]
        argline = "%s %s %d %d" % (src.tok(), dst.tok(), n, t)
        geom = "c"
    elif form == "s":
        n0, counts = shape(d, z.len, e, o.maxlv, wide=o.wide)
        if (len(counts) and n0 * _prod(counts) > z.len):
            return False
        rs, rext = strides_of(d, e, n0, counts, z.len)
        ls, lext = strides_of(d, e, n0, counts, max(n0 * _prod(counts), rext * 2))
        if kind != "get" and counts and o.src_alias and d.bool(0.12):
            # the source may be read more than once
            ls = [e * d.int(0, 3) for _ in counts]
            lext = n0 + sum(x * (c - 1) for x, c in zip(ls, counts))
            w.labels.add("alias-src")
        if rext > z.len:
            return False
        if o.perm_levels and len(counts) > 1 and d.bool(0.15):
            p = d.perm(range(len(counts)))
            counts, rs, ls = [counts[i] for i in p], [rs[i] for i in p], [ls[i] for i in p]
            w.labels.add("levels-permuted")
        if o.odd_unit and 1 in counts and d.bool(0.25):
            # the stride of a level with a single block is never used
            for i, c in enumerate(counts):
                if c == 1:
                    rs[i], ls[i] = e * d.int(0, 40), e * d.int(0, 4000)
            w.labels.add("unused-stride")
        off = z.off + e * d.int(0, (z.len - rext) // e)
        rem = Ref(a, t, off, rext)
        local = local_side(d, w, r, lext, z.type, kind, [(rem.key(), off, off + rext)], o)
        for ro, lo in zip(blocks(n0, counts, rs), blocks(n0, counts, ls)):
            x, y = Ref(a, t, off + ro, n0), Ref(local.sp, r, local.off + lo, n0)
            pairs.append((x, y, n0) if kind == "get" else (y, x, n0))
        if kind == "get":
            argline = "%s %s %s %s %s %d" % (rem.tok(), ints(rs), local.tok(), ints(ls), ints([n0] + counts), t)
        else:
            argline = "%s %s %s %s %s %d" % (local.tok(), ints(ls), rem.tok(), ints(rs), ints([n0] + counts), t)
        w.labels.add("levels:%d" % len(counts))
        if len(counts) >= 2:
            w.labels.add("levels>=2")
        geom = "s"
    elif form == "h":
        # strides of gigabytes between islands of memory
        I, J, s, S1, S2 = a.grid[t]
        n0, counts = shape(d, s, e, 3)
        if n0 * _prod(counts) > s:
            return False
        rs, rext = strides_of(d, e, n0, counts, s)
        if rext > s:
            return False
        ci, cj = d.int(1, I), d.int(1, J)
        i0, j0 = d.int(0, I - ci), d.int(0, J - cj)
        off = z.off + (i0 * J + j0) * s + e * d.int(0, (s - rext) // e)
        L = [(b, y) for b, _, y in targets(w, r, "put" if kind == "get" else "get") if _ == r and b.grid[r][0] >= ci and b.grid[r][1] >= cj
             and (y.type == z.type or (z.type == RAW and kind != "get")) and y is not z and b.grid[r][2] >= n0 * _prod(counts)]
        if L and d.bool(0.6):
            b, y = d.choice(L)
            bI, bJ, bs, B1, B2 = b.grid[r]
            ls, lext = strides_of(d, e, n0, counts, bs)
            if lext > bs:
                return False
            lo = y.off + (d.int(0, bI - ci) * bJ + d.int(0, bJ - cj)) * bs + e * d.int(0, (bs - lext) // e)
            mls, rls = ls + [bJ * bs, bs], ls + [B1, B2]
            local = Ref(b, r, lo, lext + (ci - 1) * bJ * bs + (cj - 1) * bs)
            w.labels.add("huge-local")
        else:
            mls, lext = strides_of(d, e, n0, counts + [ci, cj], n0 * _prod(counts) * ci * cj * 2)
            rls = mls
            local = local_side(d, w, r, lext, z.type, kind, [((None, None), 0, 0)], XL)
        mrs, rrs, counts = rs + [J * s, s], rs + [S1, S2], counts + [ci, cj]
        p = list(range(len(counts)))
        if d.bool(0.4):
            p = d.perm(p)
        else:
            p[-2:] = d.perm(p[-2:])
        if d.bool(0.5):
            p = [i for i in p if counts[i] > 1] or p
        mrs, rrs, mls, rls, counts = ([v[i] for i in p] for v in (mrs, rrs, mls, rls, counts))
        rem = Ref(a, t, off, rext + (ci - 1) * J * s + (cj - 1) * s)
        for ro, lo in zip(blocks(n0, counts, mrs), blocks(n0, counts, mls)):
            x, y = Ref(a, t, off + ro, n0), Ref(local.sp, r, local.off + lo, n0)
            pairs.append((x, y, n0) if kind == "get" else (y, x, n0))
        A, B = (rem.tok(), ints(rrs)), (local.tok(), ints(rls))
        if kind != "get":
            A, B = B, A
        argline = "%s %s %s %s %s %d" % (A + B + (ints([n0] + counts), t))
        if sum(x * (c - 1) for x, c in zip(rrs, counts)) >= 1 << 31:
            w.labels.add("extent>=2GB")
        geom = "s"
    else:
        # vector: descriptors over one or more zones of the same target and type
        cand = [x for x in T if x[1] == t and x[2].type == z.type and (x[0] is a or o.multi_alloc)]
        nd = d.weighted([(5, 1), (3, 2), (1, 3), (1, 0), (1, 4)])
        desc, avoid, plan = [], [], []
        used = {}
        for i in range(nd):
            if d.bool(0.1):
                plan.append((0 if d.bool() else e * d.int(1, 4), []))  # no segments or zero bytes
                if plan[-1][0] == 0:
                    k = d.int(0, 2)
                    plan[-1] = (0, [(a, z, z.off)] * k)
                continue
            zs = d.choice(cand)
            seg = e * d.weighted([(4, d_small), (2, d_mid), (1, d_big)])(d, max(1, zs[2].len // e))
            sl = []
            for za in ([zs] if not d.bool(0.3) else cand):
                slots = za[2].len // seg
                if slots < 1:
                    continue
                ph = e * d.int(0, (za[2].len - slots * seg) // e)
                want = d.int(1, min(slots, 8)) if not d.bool(0.15) else slots
                if o.wide and d.bool(0.7):
                    want = d.int(min(slots, 200 * o.manyreq) or 1, min(slots, 1 << d.int(9 if o.manyreq else 4, 10), max(1, 1500 - sum(len(x[1]) for x in plan))))
                    k = d.choice([1, 2, 3, 5, slots // want])
                    st = d.int(0, slots - 1)
                    idx = list(dict.fromkeys((st + j * k) % slots for j in range(want)))
                    if len(idx) >= 100:
                        w.labels.add("segments>=100")
                elif slots <= 48:
                    idx = d.perm(range(slots))[:min(want, 40)]
                else:
                    idx = [(d.int(0, slots - 1) + j * 1) % slots for j in range(min(want, 40))]
                if slots > 48:
                    idx = list(dict.fromkeys(idx))
                for j in idx:
                    lo = za[2].off + ph + j * seg
                    key = (id(za[0]), t)
                    if o.overlap_acc and kind == "acc" and d.bool(0.3):
                        lo = za[2].off + e * d.int(0, (za[2].len - seg) // e)
                        sl.append((za[0], za[2], lo))
                        used.setdefault(key, []).append((lo, lo + seg))
                        w.labels.add("overlap-acc")
                        continue
                    if kind != "acc" or not o.overlap_acc:
                        if any(x < lo + seg and lo < y for x, y in used.get(key, ())):
                            continue
                    used.setdefault(key, []).append((lo, lo + seg))
                    sl.append((za[0], za[2], lo))
            if len(cand) > 1 and d.bool(0.5):
                sl = d.perm(sl)
            if len({id(x[0]) for x in sl}) > 1:
                w.labels.add("iov-multi-alloc")
            plan.append((seg, sl))
        tot = sum(seg * len(sl) for seg, sl in plan)
        avoid = [(k, lo, hi) for k, l in used.items() for lo, hi in l]
        gap = e * d.weighted([(3, 0), (1, 1), (1, 3)])
        nseg = sum(len(sl) for _, sl in plan)
        local = local_side(d, w, r, max(e, tot + gap * nseg), z.type, kind, avoid, o)
        pos = 0
        args = []
        order = []
        for seg, sl in plan:
            lo = []
            for x in sl:
                if kind != "get" and o.src_alias and pos and d.bool(0.1):
                    lo.append(e * d.int(0, max(0, (pos - seg) // e)) if pos >= seg else 0)
                    if pos < seg:
                        lo[-1] = pos
                        pos += seg + gap
                    else:
                        w.labels.add("alias-src")
                else:
                    lo.append(pos)
                    pos += seg + gap
            if d.bool(0.3) and len(lo) > 1 and kind == "get":
                lo = lo[::-1]
            rem = [Ref(x[0], t, x[2], seg) for x in sl]
            loc = [Ref(local.sp, r, local.off + p, seg) for p in lo]
            S, Dd = (rem, loc) if kind == "get" else (loc, rem)
            pairs += [(x, y, seg) for x, y in zip(S, Dd)]
            args.append("%d %d %s" % (seg, len(sl), " ".join(x.tok() for x in S + Dd)))
        argline = ("%d %d %s" % (t, len(plan), " ".join(args))).rstrip()
        w.labels.add("iov-desc:%d" % nd)
        geom = "v"
    verb = kind + {"c": "", "s": "s", "h": "s", "v": "v"}[form]
    pre = "%d %s " % (dt, scale_bytes(dt, sc).hex()) if kind == "acc" else ""
    nb = None
    if d.bool(o.nb):
        k = d.weighted([(3, "h"), (2, "n"), (1, "old")])
        if k == "n":
            nb = -1
        elif k == "old" and nbh:
            nb = d.choice(nbh)
        elif w.nh[r] >= 60:
            nb = -1
        else:
            nb = w.handle(r)
            nbh.append(nb)
            if o.handles and d.bool(0.2):
                w.op(r, d.choice(["hagg %d", "hagg %d", "hunagg %d"]) % nb)
                w.labels.add("aggregate-handle")
    after = []
    if kind == "get":
        ref, loc = local, local
        after.append(lambda: dump_ref(w, r, loc, "destination of %s from process %d" % (verb, t)))
    elif isinstance(local.sp, LB) and d.bool(o.local_dump):
        loc = local
        after.append(lambda: dump_ref(w, r, loc, "source of %s to process %d (must be unchanged)" % (verb, t)))
    else:
        loc = local
        if isinstance(local.sp, LB) and d.bool(o.scribble):
            free = d.bool(0.4)
            def scr():
                n = len(loc.mem)
                if any(loc.key() == x[0] for p in w.pend[r] for x in p["acc"]):
                    return
                if free:
                    w.labels.add("freed-after-completion")
                    w.lbfree(loc.sp)
                elif n:
                    w.labels.add("scribbled-after-completion")
                    w.store(r, Ref(loc.sp, r, 0), pat(RAW, w.newsalt(), n))
            after.append(scr)

    def line(h):
        v = P + ("nb" if h else "") + verb
        if not h:
            return "%s %s%s" % (v, pre, argline)
        if form == "v":
            return "%s %s %s%s" % (v, h, pre, argline)
        return "%s %s%s %s" % (v, pre, argline, h)
    ok = w.issue(r, kind, t, pairs, line, dt, sc, nb, after)
    if ok:
        w.labels.add("op:%s%s" % ("nb" if nb is not None else "", verb))
        if t == r:
            w.labels.add("self-target")
        if kind == "acc":
            w.labels.add("acc:" + TNAME[dt])
            if sc not in (1, 1.0, (1.0, 0.0)):
                w.labels.add("scaled")
    return ok


VALT = {"i": 4, "l": 8, "f": 4, "d": 8}
SPECIAL = {4: ["00000080", "ffffff7f", "00000000", "ffffffff", "000080ff", "0100c07f", "01000000"],
           8: ["0000000000000080", "ffffffffffffff7f", "0000000000000000", "ffffffffffffffff",
               "010000000000f87f", "000000000000f0ff", "0100000000000000", "0000000001000000"]}


def scalar_bytes(d, n):
    if d.bool(0.4):
        return bytes.fromhex(d.choice(SPECIAL[n]))
    return bytes(d.int(0, 255) for _ in range(n))


def gen_scalar(d, w, r, o):
    """one value operation or read-modify-write"""
    P = "!" if d.bool(o.prefix_p) else ""
    if o.rmw_only or (not o.only_values and d.bool(0.4)):
        return gen_rmw(d, w, r, o, P)
    ty = d.choice("ilfd")
    n = VALT[ty]
    put = d.bool(0.6)
    T = [x for x in targets(w, r, "put" if put else "get") if x[2].len >= n and (x[2].type == RAW or not put)]
    if not T:
        return False
    a, t, z = d.choice(T)
    off = z.off + d.int(0, z.len - n)
    rem = Ref(a, t, off, n)
    if put:
        v = scalar_bytes(d, n)
        nb = d.bool(o.nb)
        h = w.handle(r) if nb and d.bool(0.6) and w.nh[r] < 60 else -1
        if h >= 0:
            w.unwaited[r].add(h)
        acc = [(rem.key(), off, off + n, "w")]
        w.settle(r, acc)
        rem.mem[off:off + n] = v
        w.op(r, "%s%sputval %s %s %s %d%s" % (P, "nb" if nb else "", ty, rem.tok(), v.hex(), t, (" n" if h < 0 else " h%d" % h) if nb else ""))
        if nb:
            w.pend[r].append({"h": None if h < 0 else h, "acc": acc, "proc": t, "after": [], "get": False})
        if w.weak:
            w.unf[r].append((t, acc[0]))
        w.labels.add("op:%sputval" % ("nb" if nb else ""))
    else:
        w.settle(r, [(rem.key(), off, off + n, "r")])
        i = w.op(r, "%sgetval %s %s %d" % (P, ty, rem.tok(), t))
        w.exp("V", r, i, [bytes(rem.mem[off:off + n]).hex()], "value read from process %d" % t)
        w.labels.add("op:getval")
    if t == r:
        w.labels.add("self-target")
    w.nops += 1
    return True


def rmw_apply(op, old, val, loc):
    """new contents of the location (ints)"""
    bits = 64 if op in (1, 3) else 32
    x = old + val if op < 2 else loc
    x &= (1 << bits) - 1
    return x - (1 << bits) if x >> (bits - 1) else x


RMW = ["add int", "add long", "swap int", "swap long"]


def rmw_code(k):
    # runner takes the library's numeric constants
    return RMWNUM[k]


RMWNUM = [0, 1, 2, 3]


def gen_rmw(d, w, r, o, P=""):
    T = [x for x in targets(w, r, "put") if x[2].type in (INT, LONG, RAW) and x[2].len >= 4]
    if not T:
        return False
    a, t, z = d.choice(T)
    k = d.int(0, 3)
    n = 8 if k in (1, 3) else 4
    lo = -(-z.off // n)
    hi = (z.off + z.len) // n
    if hi <= lo:
        return False
    off = n * d.int(lo, hi - 1)
    rem = Ref(a, t, off, n)
    f = "<q" if n == 8 else "<i"
    val = d.choice([1, 0, -1, 7, 1000003, -2147483648, 2147483647])
    lv = struct.unpack(f, scalar_bytes(d, n))[0]
    b = w.lbuf(r, n, struct.pack(f, lv))
    w.settle(r, [(rem.key(), off, off + n, "w")])
    old = struct.unpack(f, bytes(rem.mem[off:off + n]))[0]
    new = rmw_apply(k, old, val, lv)
    rem.mem[off:off + n] = struct.pack(f, new)
    b.mem[:] = struct.pack(f, old)
    i = w.op(r, "%srmw %d %s %s %d %d w" % (P, rmw_code(k), b.tok(0), rem.tok(), val, t))
    w.exp("W", r, i, [struct.pack(f, old).hex()], "value fetched by read-modify-write on process %d" % t)
    w.lbfree(b)
    if w.weak:
        w.unf[r].append((t, (rem.key(), off, off + n, "w")))
    w.labels.add("rmw:" + RMW[k])
    w.nops += 1
    return True


def gen_flag(d, w, r, o):
    """contiguous or strided put with flag"""
    T = targets(w, r, "put")
    if not T:
        return False
    a, t, z = d.choice(T)
    F = [x for x in T if x[1] == t and x[2].len >= 4 and x[2].type in (RAW, INT)]
    if not F:
        return False
    fa, _, fz = d.choice(F)
    fo = fz.off + (-fz.off % 4) + 4 * d.int(0, max(0, fz.len // 4 - 2))
    if fo + 4 > fz.off + fz.len:
        return False
    P = "!" if d.bool(o.prefix_p) else ""
    e = 1 if z.type == RAW else ESZ[z.type]
    flag = Ref(fa, t, fo, 4)
    v = d.choice([1, 0, -1, 77, 2147483647])
    if d.bool():
        n = e * d.int(1, z.len // e)
        off = z.off + e * d.int(0, (z.len - n) // e)
        if fa is a and off < fo + 4 and fo < off + n:
            return False
        rem = Ref(a, t, off, n)
        loc = local_side(d, w, r, n, z.type, "put", [(rem.key(), off, off + n)], o)
        pairs = [(loc, rem, n)]
        line = lambda h: "%sputf %s %s %d %s %d %d" % (P, loc.tok(), rem.tok(), n, flag.tok(), v, t)
        w.labels.add("op:putf")
    else:
        n0, counts = shape(d, z.len, e, o.maxlv, wide=o.wide)
        if n0 * _prod(counts) > z.len:
            return False
        rs, rext = strides_of(d, e, n0, counts, z.len)
        ls, lext = strides_of(d, e, n0, counts, max(n0 * _prod(counts), rext * 2))
        if rext > z.len:
            return False
        off = z.off + e * d.int(0, (z.len - rext) // e)
        if fa is a and off < fo + 4 and fo < off + rext:
            return False
        rem = Ref(a, t, off, rext)
        loc = local_side(d, w, r, lext, z.type, "put", [(rem.key(), off, off + rext)], o)
        pairs = [(Ref(loc.sp, r, loc.off + y, n0), Ref(a, t, off + x, n0), n0)
                 for x, y in zip(blocks(n0, counts, rs), blocks(n0, counts, ls))]
        line = lambda h: "%sputsf %s %s %s %s %s %d %s %d" % (P, loc.tok(), ints(ls), rem.tok(), ints(rs), ints([n0] + counts), t, flag.tok(), v)
        w.labels.add("op:putsf")
    fa_ = [(flag.key(), fo, fo + 4, "w")]
    w.settle(r, fa_)
    if not w.issue(r, "put", t, pairs, line):
        return False
    flag.mem[fo:fo + 4] = struct.pack("<i", v)
    if w.weak:
        w.unf[r].append((t, fa_[0]))
    return True


def gen_dla(d, w, r, o):
    """direct loads and stores by the owner, inside an access section begun at any
    address of the allocation"""
    own = []
    for a in w.allocs:
        if a.live and r in a.members:
            for z in a.zones[r]:
                if w.uses(z) and ((z.role == "x" and z.owner == r) or z.role == "ro"):
                    own.append((a, z))
    if not own:
        return False
    a, z = d.choice(own)
    e = 1 if z.type == RAW else ESZ[z.type]
    n = e * d.int(1, z.len // e)
    off = z.off + e * d.int(0, (z.len - n) // e)
    write = z.role == "x" and d.bool(0.6)
    ref = Ref(a, r, off, n)
    P = "!" if d.bool(o.prefix_p) else ""
    w.settle(r, [(ref.key(), off, off + n, "w" if write else "r")])
    if w.weak:
        # the caller's own remote-style writes to itself must be complete first
        w.op(r, "fence %d" % r)
        w.unf[r] = [x for x in w.unf[r] if x[0] != r]
    t = Ref(a, r, d.int(0, len(a.mem[r]) - 1))
    w.op(r, P + "abegin " + t.tok())
    if not write or d.bool():
        w.dump(r, ref.tok(), bytes(ref.mem[off:off + n]), "direct load")
    if write:
        v = pat(z.type, w.newsalt(), n)
        ref.mem[off:off + n] = v
        w.op(r, "fill %s %s" % (ref.tok(), v.hex()))
    w.op(r, P + "aend " + t.tok())
    w.labels.add("direct-store" if write else "direct-load")
    w.nops += 1
    return True


def handle_step(d, w, r, hs):
    """one step in the life of an explicit handle"""
    h = d.choice(hs)
    busy = any(p["h"] == h for p in w.pend[r])
    k = d.choice(["test", "done", "wait", "reinit", "free", "progress"])
    if k == "test":
        i = w.op(r, "test h%d" % h)
        w.exp(*(("Rin", r, i, ["0", "1"], "test") if busy else ("R", r, i, ["0"], "test of a completed handle")))
    elif k == "progress":
        w.op(r, "progress")
    elif busy:
        return
    elif k == "done":
        w.op(r, "testloop h%d" % h)
        w.unwaited[r].discard(h)
    elif k == "wait":
        w.op(r, "wait h%d" % h)
        w.unwaited[r].discard(h)
    elif k == "reinit":
        w.quiet(r, h)
        w.op(r, "hinit %d" % h)
    else:
        w.quiet(r, h)
        w.op(r, "hfree %d" % h)
        hs.remove(h)
    w.labels.add("handle:" + k)


def d_small(d, m):
    return d.int(1, min(m, 4))


def d_mid(d, m):
    return d.int(1, min(m, 24))


def d_big(d, m):
    return d.int(1, m)


def _prod(l):
    p = 1
    for x in l:
        p *= x
    return p


def run_phases(d, w, o, sync=None):
    n = d.int(*o.phases)
    for ph in range(n):
        d.span(7)
        assign_roles(d, w, o)
        for r in range(w.np):
            hs = []
            k = d.int(*o.ops)
            for _ in range(k):
                d.span(8)
                gen_op(d, w, r, o, hs)
                if w.pend[r] and d.bool(0.25):
                    w.complete(r, d.choice(w.pend[r]))
                if o.handles and hs and d.bool(0.3):
                    handle_step(d, w, r, hs)
                d.endspan()
        how = d.choice(sync or o.syncs or ["barrier", "afence", "afence_sync", "p2p"])
        w.sync(how)
        if ph + 1 < n and d.bool(0.3):
            for a in w.allocs:
                if a.live:
                    w.dump_alloc(a, "contents after phase %d" % ph)
            w.sync("barrier")
        d.endspan()


def huge(d, w, most=6 << 30):
    """allocations with gaps of gigabytes (memory that is reserved but hardly used)"""
    w.cfg["big"] = 1
    w.env["ARMCI_IOV_METHOD"] = d.choice(["CONSRV", "BATCHED"])
    w.labels.add("huge-window")

    def f(r, zs):
        out, add = [], 0
        for z in d.subset(zs, 1):
            g = d.choice([1 << 31, 1 << 32, (1 << 31) - 16, (1 << 31) - z.off - add & -16, (1 << 32) - z.off - add & -16, 3 << 30, 5 << 29])
            if g <= 0 or add + g > most:
                continue
            add += g
            out.append((z.off, z.off + add))
        return out
    w.stretch = f


LIBVERSIONS = {
    1: ["Open MPI v4.1.6, package: Debian OpenMPI, ident: 4.1.6", "Open MPI v4.0.0rc10, package: x", "Open MPI v3.1.2", "Open MPI v2.0.1a1, package: y", "Open MPI 4.1.2a1"],
    2: ["Open MPI v5.0.3, package: x, ident: 5.0.3", "Open MPI v5.1.0a1, package: z", "Open MPI v6.0.0rc1"],
    3: ["MPICH Version:      4.2.0|MPICH Release date: Fri Feb  9 12:29:21 CST 2024|", "MPICH Version:\t3.4.1", "MPICH Version: 4.0a2|MPICH", "MPICH Version: 3.3rc12345",
        "Intel(R) MPI Library 2021.10 for Linux* OS", "Intel(R) MPI Library 2021.1 for Linux* OS|", "Intel(R) MPI Library 2018 Update 4 for Linux* OS",
        "MPI VERSION    : CRAY MPICH version 8.1.29.2 (ANL base 3.4a2)|MPI BUILD INFO : x", "MVAPICH2 Version      :\t2.3.7|MVAPICH2 Release date : x",
        "ParaStation MPI 5.4", " ", "MPICH", "x" * 200]}


def libversion(d, w, p=0.2):
    """what the MPI library calls itself"""
    if d.bool(p):
        w.env["SIM_LIBVERSION"] = d.choice(LIBVERSIONS[w.build["variant"]])
        w.labels.add("library-version")


def base_world(d, nps=((3, 2), (4, 3), (2, 4), (1, 1)), variants=((5, 1), (4, 3), (1, 2)), **sk):
    np = d.weighted(list(nps))
    if np >= 3 and d.bool(0.06):
        np = d.int(5, 8)
    w = World(d, np, d.weighted(list(variants)))
    sched(d, w, **sk)
    return w


def phase_case(d, o, nps=((3, 2), (4, 3), (2, 4), (1, 1)), tuning=0.5, weak_ok=True, checks=0.0, **sk):
    if o.manyreq:
        w = base_world(d, nps, ((1, 1), (5, 2), (1, 3)), weak_ok=weak_ok)
        w.cfg["lazy"] = 3
    else:
        w = base_world(d, nps, weak_ok=weak_ok)
    tune(d, w, tuning)
    if checks and iov_checks(d, w, checks):
        o2 = Opt()
        o2.__dict__.update(o.__dict__)
        for k, v in vars(type(o)).items():
            if not k.startswith("_") and k not in o2.__dict__:
                setattr(o2, k, v)
        o2.overlap_acc = o2.multi_alloc = True
        o = o2
    if o.huge:
        huge(d, w)
    if o.wide:
        w.cfg["big"] = 2
        w.labels.add("wide")
    w.init()
    make_allocs(d, w, o)
    w.allop("barrier")
    run_phases(d, w, o)
    w.finish()
    w.nontrivial = w.nops > 0
    return w
