"""C15 (pack and unpack), C16 (interval tree), C19 (everything, audited), C20 (invalid
accesses), C23 (profiling interface), C24 (threads)."""
from seg import *
from p_obj import *
from ops import _prod, d_small, d_mid, d_big


# ---------------------------------------------------------------- C15
class PBuf:
    """a byte area of one process with guards: private, or in its shared memory"""

    def __init__(self, d, w, r, n, align=1):
        self.n = n
        c = [(a, z) for a in w.allocs if r in a.members for z in a.zones[r] if z.len >= n]
        if c and n and d.bool(0.25):
            a, z = d.choice(c)
            self.sp, self.off, self.tot = a, z.off + d.int(0, z.len - n), len(a.mem[r])
            w.labels.add("shared-memory")
        else:
            f, b = d.choice([0, 1, 7, 16]), d.choice([0, 3, 8])
            self.sp = w.lbuf(r, f + n + b)
            self.off, self.tot = f, f + n + b
        self.r = r
        self.mem = self.sp.mem if isinstance(self.sp, LB) else self.sp.mem[r]
        self.base = Ref(self.sp, r, 0)

    def tok(self, o=0):
        return Ref(self.sp, self.r, self.off + o).tok()


def c15(d):
    w = base_world(d, ((4, 1), (1, 2)))
    w.init()
    tune(d, w, 0.15)
    if d.bool(0.4):
        z = {r: [Zone(0, n, RAW)] for r in range(w.np) for n in [d.int(100, 2000)]}
        w.alloc({r: z[r][0].len for r in z}, None, z)
        w.allop("barrier")
    for r in range(w.np):
        bufs = []          # (PBuf, payload size)
        for _ in range(d.int(1, 4)):
            d.span(51)
            unit = d.choice([1, 1, 2, 4, 8])
            n0, counts = shape(d, d.choice([30, 200, 1500]), unit, 7)
            tot = n0 * _prod(counts)
            old = [b for b in bufs if b[1] == tot]
            if bufs and d.bool(0.5) and not old:
                # the same amount of data in another layout
                tot = d.choice(bufs)[1]
                n0, counts = factor(d, tot)
            st, ext = strides_of(d, 1, n0, counts, tot * d.choice([1, 2, 4, 9]) + 40)
            alias = d.bool(0.12) and counts
            if alias:
                st = [d.int(0, n0 + 3) for _ in counts]
                ext = n0 + sum(s * (c - 1) for s, c in zip(st, counts))
            if len(counts) > 1 and d.bool(0.3):
                p = d.perm(range(len(counts)))
                counts, st = [counts[i] for i in p], [st[i] for i in p]
                w.labels.add("levels-permuted")
            if 1 in counts and d.bool(0.4):
                st = [d.choice([0, 1, 3, 1 << 20, 1 << 30, s]) if c == 1 else s for s, c in zip(st, counts)]
                w.labels.add("unused-stride")
            reg_ = PBuf(d, w, r, ext)
            B = [b for b in bufs if b[1] == tot]
            if B and d.bool(0.75):
                buf = d.choice(B)[0]
            else:
                buf = PBuf(d, w, r, tot)
                bufs.append((buf, tot))
            if buf.sp is reg_.sp and buf.off < reg_.off + ext and reg_.off < buf.off + tot:
                d.endspan()
                continue
            offs = blocks(n0, counts, st)

            def pack():
                for i, o in enumerate(offs):
                    buf.mem[buf.off + i * n0:buf.off + (i + 1) * n0] = reg_.mem[reg_.off + o:reg_.off + o + n0]
                w.op(r, "wstrided %s %s %s %s" % (reg_.tok(), ints(st), ints([n0] + counts), buf.tok()))

            def unpack():
                for i, o in enumerate(offs):
                    reg_.mem[reg_.off + o:reg_.off + o + n0] = buf.mem[buf.off + i * n0:buf.off + (i + 1) * n0]
                w.op(r, "rstrided %s %s %s %s" % (reg_.tok(), ints(st), ints([n0] + counts), buf.tok()))
            k = d.choice(["pack", "unpack", "round"])
            if alias:
                k = "pack"
                w.labels.add("blocks-overlap")
            w.labels |= {k, "levels:%d" % len(counts)}
            if k == "pack":
                pack()
            elif k == "unpack":
                unpack()
            else:
                pack()
                # destroy the region's bytes, then bring them back
                v = pat(RAW, w.newsalt(), ext)
                w.op(r, "fill %s %s" % (reg_.tok(), v.hex()))
                reg_.mem[reg_.off:reg_.off + ext] = v
                unpack()
            for b, why in ((buf, "packed buffer"), (reg_, "strided region")):
                w.dump(r, b.base.tok(), bytes(b.mem), "%s after %s, %d levels" % (why, k, len(counts)))
            w.nops += 1
            if len(counts) >= 2 and _prod(counts) > 2:
                w.nontrivial = True
            d.endspan()
    w.finish(dumps=False)
    return w.case()


def factor(d, n):
    """a shape of exactly n bytes"""
    fs, m, p = [], n, 2
    while p * p <= m:
        while m % p == 0:
            fs.append(p)
            m //= p
        p += 1
    if m > 1:
        fs.append(m)
    fs = d.perm(fs)
    k = d.int(0, len(fs))
    n0 = 1
    for f in fs[k:]:
        n0 *= f
    counts = fs[:k]
    while len(counts) > 7:
        n0 *= counts.pop()
    return n0, counts


reg(Prop("C15", [Group("pack", c15, 12000)],
         "sequences of pack, unpack and pack-destroy-unpack on regions of 0-7 levels (nested, padded, permuted and overlapping layouts, arbitrary strides for levels of count one) and buffers of "
         "exactly the product of the counts, in private or shared memory with guard bytes, data moved between different layouts of equal size; both sides dumped after every call. Non-trivial: at "
         "least two levels and more than two blocks."))


# ---------------------------------------------------------------- C16
TOP = (1 << 64) - 1


def gen_iv(d, mode, st, uni, base):
    if mode == "asc":
        st[0] += d.int(1, 3)
        return base + st[0], base + st[0]
    if mode == "desc":
        st[0] += d.int(1, 3)
        return base + uni - st[0], base + uni - st[0]
    if mode == "zig":
        st[0] += 1
        x = st[0] * 2 if st[0] % 2 else uni - st[0] * 2
        return base + x, base + x + d.int(0, 1)
    if mode == "grid":
        k = d.int(0, uni // 8)
        return base + 8 * k, base + 8 * k + 7
    ln = d.weighted([(4, 1), (3, 2), (2, 8), (1, max(1, uni // 4)), (1, uni)])
    lo = d.int(0, uni - 1)
    hi = min(uni - 1, lo + d.int(0, ln - 1))
    return base + lo, base + hi


def c16_tree(d):
    w = World(d, 1, 1)
    w.op(0, "mpi_init 0")
    w.cfg["leakcheck"] = 1
    nt = d.int(1, 2)
    trees = []
    for t in range(nt):
        uni = d.choice([12, 40, 200, 3000, 100000])
        base = d.choice([0, 0x1000, 0x7fff00000000, (1 << 63) - uni // 2, TOP - uni + 1, (1 << 31) - uni // 2, (1 << 32) - uni // 2])
        trees.append([uni, base, [0], d.choice(["rand", "rand", "grid", "asc", "desc", "zig"])])
        w.op(0, "ctnew %d" % t)
    total = d.weighted([(3, 12), (3, 40), (2, 120), (1, 250)])
    evs = []
    for _ in range(d.int(1, total)):
        t = d.int(0, nt - 1)
        uni, base, st, mode = trees[t]
        k = d.weighted([(12, "i"), (5, "l"), (1, "d"), (1, "x"), (1, "m")])
        if k == "m":
            trees[t][3] = d.choice(["rand", "asc", "desc", "zig", "grid"])
            continue
        if k in "il":
            lo, hi = gen_iv(d, mode if k == "i" else "rand", st, uni, base)
            lo, hi = max(0, min(lo, TOP)), max(0, min(hi, TOP))
            if hi < lo:
                lo, hi = hi, lo
            i = w.op(0, "%s %d %d %d" % ("ctins" if k == "i" else "ctloc", t, lo, hi))
            evs.append([k, t, i, lo, hi])
        elif k == "d":
            i = w.op(0, "ctdump %d" % t)
            evs.append(["d", t, i])
            evs.append(["h", t, w.op(0, "ctheight %d" % t)])
        elif d.bool(0.3):
            w.op(0, "ctdel %d" % t)
            w.op(0, "ctnew %d" % t)
            evs.append(["x", t])
            w.labels.add("destroy+reuse")
    for t in range(nt):
        evs.append(["d", t, w.op(0, "ctdump %d" % t)])
        evs.append(["h", t, w.op(0, "ctheight %d" % t)])
        w.op(0, "ctdel %d" % t)
    w.op(0, "mpi_fini")
    w.expect = [["oracle", "ctree", {"evs": evs}]]
    w.nontrivial = sum(e[0] == "i" for e in evs) >= 3
    w.labels |= {"mode:" + t[3] for t in trees}
    return w.case()


def c16_iov(d):
    w = base_world(d, ((1, 1),))
    w.env["ARMCI_IOV_CHECKS"] = "1"
    w.init()
    for _ in range(d.int(1, 4)):
        d.span(53)
        n = d.weighted([(3, 4), (3, 12), (2, 60), (1, 0)])
        n = d.int(1, n) if n else 0
        size = d.weighted([(3, 8), (2, 1), (2, 3), (1, 100), (1, 4096)])
        base = d.choice([0x10000, 0x7f0000000000, TOP - (1 << 30)])
        mode = d.choice(["disjoint", "any", "one", "adjacent"])
        pos = 0
        ps = []
        for i in range(n):
            ps.append(base + pos)
            pos += size + (0 if mode == "adjacent" else d.choice([0, 0, 1, size, 3 * size]))
        if mode == "any":
            ps = [base + d.int(0, max(1, n * size * 2)) for _ in range(n)]
        elif mode == "one" and n > 1:
            # exactly one segment moved onto, or just beside, another
            i, j = d.int(0, n - 1), d.int(0, n - 1)
            ps[i] = ps[j] + d.choice([size - 1, size, -size, 1 - size, 0])
        ps = d.perm(ps) if d.bool(0.7) else ps
        s = sorted(ps)
        ov = any(b - a < size for a, b in zip(s, s[1:]))
        i = w.op(0, "iovov %d %d %s" % (size, n, " ".join("x%x" % p for p in ps)))
        w.exp("NZ" if ov else "R", 0, i, [0], "overlap check of %d segments of %d bytes" % (n, size))
        w.labels.add("overlap" if ov else "disjoint")
        if n >= 2:
            w.nontrivial = True
        d.endspan()
    w.finish(dumps=False)
    return w.case()


reg(Prop("C16", [Group("tree", c16_tree, 14000), Group("segments", c16_iov, 6000)],
         "histories of insert, locate, dump, height, destroy and reuse on up to two interval trees (random, gridded, ascending, descending, zig-zag orders; universes of 12 to 100000 bytes placed at "
         "0, 2^31, 2^32, 2^63 and the top of the address space; up to 250 intervals) against a sorted interval set, plus the height bound of an AVL tree and parent links; segment lists of 0-60 "
         "segments (disjoint, adjacent, one overlap, random) against pairwise comparison. Non-trivial: at least three insertions, or two segments."))


# ---------------------------------------------------------------- C20
def bad_addr(d, w, r, t, n, valid=0.3):
    """a remote address of a possible access of n bytes by r to t:
    (token, [kind...] for the oracle, class)"""
    live = [a for a in w.allocs if a.live]
    k = "ok" if d.bool(valid) else d.choice(["end", "past", "before", "other", "freed", "private", "junk", "nonmember", "far"])
    mine = [a for a in live if r in a.members and a.mem.get(t)]
    if k in ("ok", "end", "past", "before", "far") and mine:
        a = d.choice(mine)
        S = a.rsize[t]
        m = a.members.index(t)
        if k == "ok":
            if S < n:
                k = "end"
            else:
                off = d.choice([0, S - n, d.int(0, S - n)])
        if k == "end":
            off = max(0, S - n + d.choice([1, 1, 2, n - 1, n // 2])) if n > 1 else S
        elif k == "past":
            off = S + d.choice([0, 0, 1, 8, 4000])
        elif k == "before":
            off = -d.choice([1, n, 8, 4000])
        elif k == "far":
            off = d.choice([1 << 31, 1 << 32, (1 << 31) + 8, -(1 << 31), -(1 << 32)])
        return tok_at(a, m, off), ["a", a.id, m, off], k
    if k in ("other", "nonmember", "freed"):
        if k == "nonmember":
            c = [(a, m) for a in live for m in a.members if r not in a.members and a.mem.get(m)]
            c = [(a, m) for a, m in c if m == t] or c
        elif k == "freed":
            c = [(a, m) for a in w.allocs if not a.live for m in a.members if a.mem.get(m)]
            c = [(a, m) for a, m in c if m == t] or c
        else:
            c = [(a, m) for a in live for m in a.members if m != t and a.mem.get(m)]
        c = [(a, m) for a, m in c if r in a.members]    # the caller must have its address
        if c:
            a, m = d.choice(c)
            i = a.members.index(m)
            off = d.int(0, len(a.mem[m]) - 1)
            return tok_at(a, i, off), ["a", a.id, i, off], k
    if k == "private" or k == "junk" and d.bool():
        b = w.lbuf(r, n)
        return b.tok(0), ["p"], "private"
    x = d.choice([0, 1, 4096, TOP, 1 << 47])
    return "x%x" % x, ["x", x], "junk"


def tok_at(a, m, off):
    return "a%d.%d%s%d" % (a.id, m, "+" if off >= 0 else "-", abs(off))


def c20_access(d):
    w = base_world(d, ((3, 2), (4, 3), (1, 1), (1, 4)))
    tune(d, w, 0.4)
    if d.bool(0.3):
        w.env["ARMCI_IOV_CHECKS"] = "1"
    if d.bool(0.12):
        huge(d, w)
    w.init()
    hist = []
    o = OA()
    for _ in range(d.int(1, 4)):
        a_alloc(d, w, o, None, groups=0.3, how=False)
        a = w.allocs[-1]
        hist.append(["a", a.id, [[w.pm[r], a.at[r], a.rsize[r], r] for r in a.members]])
        if d.bool(0.3):
            x = d.choice([a for a in w.allocs if a.live])
            a_free(d, w, x, None)
            hist.append(["f", x.id])
    w.sync("barrier")
    r, t = d.int(0, w.np - 1), d.int(0, w.np - 1)
    acts = []          # one entry per transfer: list of [addr, len]
    P = "!" if d.bool(0.2) else ""
    nb = d.bool(0.35)
    hd = ""
    if nb:
        hd = "n" if d.bool() else "h%d" % w.handle(r)
    form = d.choice(["c", "c", "s", "v", "val", "rmw", "flag", "dla"])
    kind = d.choice(["put", "get", "acc"])
    dt = d.choice([INT, LONG, FLT, DBL, CPL, DCP])
    e = ESZ[dt] if kind == "acc" else 1
    pre = "%d %s " % (dt, scale_bytes(dt, d.choice(SCALES[dt])).hex()) if kind == "acc" else ""
    bl = w.lbuf(r, 4096, pat(dt, w.newsalt(), 4096) if kind == "acc" else None)
    off0 = w.d.int(0, 3) * e
    oddacc = kind == "acc" and d.bool(0.12)
    cls = set()

    def rem(n, valid=0.3):
        tk_, desc, c = bad_addr(d, w, r, t, n, valid)
        cls.add(c)
        return tk_, desc
    single = False
    if form == "c":
        n = e * d.int(1, 12) if d.bool(0.8) else e * d.int(12, 200)
        if oddacc:
            n += d.int(1, e - 1)
        R, ds = rem(n)
        L = bl.tok(off0)
        a, b = (R, L) if kind == "get" else (L, R)
        line = "%s %s%s %s %d %d" % (("nb" if nb else "") + kind, pre, a, b, n, t) + (" " + hd if nb else "")
        acts.append([[ds, n]])
        single = True
    elif form == "s":
        n0, counts = shape(d, 300, e, 4)
        if oddacc and n0 > e:
            n0 -= d.int(1, e - 1)
        else:
            oddacc = False
        rs, ext = strides_of(d, e, n0, counts, d.choice([_prod(counts) * n0 + 20, 600]))
        ls = []
        x = n0
        for c in counts:
            ls.append(x)
            x *= c
        R, ds = rem(ext)
        L = bl.tok(off0)
        a, sa, b, sb = (R, rs, L, ls) if kind == "get" else (L, ls, R, rs)
        line = "%s %s%s %s %s %s %s %d" % (("nb" if nb else "") + kind + "s", pre, a, ints(sa), b, ints(sb), ints([n0] + counts), t) + (" " + hd if nb else "")
        acts.append([[shift(ds, x), n0] for x in blocks(n0, counts, rs)])
    elif form == "v":
        n = e * d.int(1, 6)
        if oddacc:
            n += d.int(1, e - 1)
        k = d.int(1, 5)
        if k > 1:
            w.cfg["vamode"] = 0     # equal addresses on different processes would make them overlap
        one = d.bool(0.6)       # one bad segment among good ones
        badi = d.int(0, k - 1)
        S, ds = [], []
        for i in range(k):
            q, x = rem(n, 0.3 if not one or i == badi else 1.0)
            # remote segments of one descriptor must not overlap unless the checks are on
            if x[0] == "a" and any(y[:3] == x[:3] and abs(y[3] - x[3]) < n for y, _, _ in ds):
                continue
            S.append(q)
            ds.append([x, n, min(e, 8) if kind == "acc" and dt != CPL else min(e, 4)])
        k = len(S)
        L = [bl.tok(off0 + i * (n + 8 - n % 8)) for i in range(k)]
        a, b = (S, L) if kind == "get" else (L, S)
        nd = d.int(1, 2) if k > 1 else 1
        cut = d.int(1, k - 1) if nd == 2 else k
        parts = [(0, cut)] + ([(cut, k)] if nd == 2 else [])
        args = " ".join("%d %d %s" % (n, hi - lo, " ".join(a[lo:hi] + b[lo:hi])) for lo, hi in parts)
        v = ("nb" if nb else "") + kind + "v"
        line = "%s %s%s%d %d %s" % (v, hd + " " if nb else "", pre, t, nd, args)
        acts.append(ds)
    elif form == "val":
        ty = d.choice("ilfd")
        n = VALT[ty]
        R, ds = rem(n)
        oddacc = False
        if kind == "get":
            line = "getval %s %s %d" % (ty, R, t)
        else:
            line = "%sputval %s %s %s %d%s" % ("nb" if nb else "", ty, R, scalar_bytes(d, n).hex(), t, " " + hd if nb else "")
        acts.append([[ds, n]])
        single = True
    elif form == "rmw":
        k = d.int(0, 3)
        n = 8 if k in (1, 3) else 4
        R, ds = rem(n)
        oddacc = False
        line = "rmw %d %s %s %d %d" % (rmw_code(k), bl.tok(0), R, d.choice([1, -1, 5]), t)
        # an unaligned location is outside the interface
        acts.append([[ds, n, n]])
        single = True
    elif form == "flag":
        oddacc = False
        n = d.int(1, 16)
        R, ds = rem(n, 0.6)
        F, fs = rem(4, 0.5)
        if d.bool():
            line = "putf %s %s %d %s %d %d" % (bl.tok(off0), R, n, F, 5, t)
            acts.append([[ds, n]])
        else:
            c = d.int(1, 4)
            s = n + d.int(0, 9)
            R, ds = rem(s * (c - 1) + n, 0.6)
            line = "putsf %s %d %s %d %d,%d %d %s %d" % (bl.tok(off0), n, R, s, n, c, t, F, 5)
            acts.append([[shift(ds, i * s), n] for i in range(c)])
        acts.append([[fs, 4]])
    else:
        oddacc = False
        t = r
        R, ds = rem(1)
        line = d.choice(["abegin", "aend"]) + " " + R
        acts.append([[ds, 1]])
    i = w.op(r, P + line)
    w.expect = [["status", ["OK", "ABORT"]],
                ["oracle", "invalid", {"always": 1, "hist": hist, "r": w.pm[r], "caller": r, "t": t, "op": i, "acts": acts, "odd": bool(oddacc),
                                       "single": single, "pend": nb}]]
    for p in range(w.np):
        w.complete_all(p)
    if nb and hd != "n":
        w.op(r, "wait " + hd)
    w.unwaited = [set() for _ in range(w.np)]
    w.finish(dumps=False, free=False)
    w.labels |= {"class:" + c for c in cls} | {"form:%s%s" % ("nb" if nb and form in "csv" or nb and form == "val" else "", form)}
    if form not in ("val", "rmw", "flag", "dla"):
        w.labels.add("kind:" + kind)
    if oddacc:
        w.labels.add("odd-size")
    w.nontrivial = cls != {"ok"} or oddacc
    return w.case()


def shift(ds, x):
    return ["a", ds[1], ds[2], ds[3] + x] if ds[0] == "a" else ["x", ds[1] + x] if ds[0] == "x" else ds


def c20_misuse(d):
    w = base_world(d, ((3, 2), (3, 3), (1, 1), (1, 4)))
    tune(d, w, 0.15)
    w.init()
    o = OA()
    for _ in range(d.int(1, 2)):
        a_alloc(d, w, o, None, groups=0.3, how=False)
    if d.bool(0.4):
        seg_mutex(d, w)
    if d.bool(0.3):
        w.allop("mcreate %d" % d.int(1, 3))
        w.allop("mdestroy")
    w.sync("barrier")
    r = d.int(0, w.np - 1)
    live = [a for a in w.allocs if a.live]
    k = d.choice(["free-private", "free-freed", "gfree-private", "free-other", "lock-none", "unlock-none", "destroy-none", "create-twice", "lock-range",
                  "unlock-range", "hlock-range", "hunlock-range", "create-negative", "error-call", "abort-call"])
    P = "!" if d.bool(0.2) else ""
    i = None
    if k == "free-private":
        b = w.lbuf(r, 16)
        i = w.op(r, P + d.choice(["free ", "mdfree "]) + b.tok(d.int(0, 15)))
    elif k == "gfree-private":
        if not w.groups:
            w.group(list(range(w.np)))
        g = d.choice(sorted(w.groups))
        r = d.choice(w.groups[g])
        b = w.lbuf(r, 16)
        i = w.op(r, "gfreemem %s %d" % (b.tok(0), g))
    elif k == "free-freed":
        a = [a for a in live if a.mem]
        if a:
            a = d.choice(a)
            a_free(d, w, a, None)
            w.sync("barrier")
            r = d.choice([m for m in a.members if a.mem.get(m)])
            tok = a.tok(r, d.int(0, len(a.mem[r]) - 1))
            i = w.op(r, P + "free " + tok if a.gid is None else "gfreemem %s %d" % (tok, a.gid))
    elif k == "free-other":
        # an address that only another process can free
        c = [(a, m) for a in live for m in a.members if a.mem.get(m) and len(a.members) > 1]
        if c:
            a, m = d.choice(c)
            r = d.choice([x for x in a.members if x != m])
            # placements that make addresses collide would make it a live address here
            w.cfg["place"] = 0
            off = d.int(0, len(a.mem[m]) - 1)
            i = w.op(r, P + "free " + a.tok(m, off))
            w.expect = [["status", ["OK", "ABORT", "DEADLOCK", "MPIERR"]], ["oracle", "freeother", {"always": 1, "r": w.pm[r], "op": i, "addr": [a.id, a.members.index(m), off],
                        "caller": r, "hist": [["a", x.id, [[w.pm[q], x.at[q], x.rsize[q], q] for q in x.members]] for x in w.allocs if x.live]}]]
            w.labels.add("misuse:" + k)
            w.nontrivial = True
            w.unwaited = [set() for _ in range(w.np)]
            w.finish(dumps=False, free=False)
            return w.case()
    elif k in ("lock-none", "unlock-none"):
        i = w.op(r, "%s%s %d %d -1" % (P, k[:-5], d.int(0, 2), d.int(0, w.np - 1)))
    elif k in ("error-call", "abort-call"):
        # the application gives up: everything stops, with its code
        code = d.choice([1, 2, 77, 255, -1, d.int(1, 1 << 30)])
        i = w.op(r, "%s %d" % ("error" if k == "error-call" else "eabort", code))
    elif k == "destroy-none":
        i = w.op(r, P + "mdestroy")
    elif k == "create-twice":
        w.allop("mcreate %d" % d.int(1, 2))
        w.sync("barrier")
        i = w.op(r, P + "mcreate %d" % d.int(1, 2))
    elif k == "create-negative":
        i = w.op(r, P + "mcreate -1")
        if w.np > 1:
            i = None        # the counts are only seen together
    elif k in ("lock-range", "unlock-range"):
        c = [d.int(0, 3) for _ in range(w.np)]
        if not any(c):
            c[0] = 1
        for x in range(w.np):
            w.op(x, "mcreate %d" % c[x])
        w.sync("barrier")
        i = w.op(r, "%s%s %d %d -1" % (P, k[:-6], d.choice([max(c), max(c) + 1, -1, 1 << 20, -(1 << 31)]), d.int(0, w.np - 1)))
    else:
        g = w.group(d.perm(d.subset(range(w.np), 1)))
        mem = w.groups[g]
        c = {x: d.int(0, 3) for x in mem}
        if not any(c.values()):
            c[mem[0]] = 1
        for x in mem:
            w.op(x, "mxcreate 31 %d %d" % (c[x], g))
        w.sync("barrier")
        r = d.choice(mem)
        i = w.op(r, "mx%s 31 %d %d -1" % (k[1:-6], d.choice([max(c.values()), max(c.values()) + 7, -1]), d.choice(mem)))
    w.labels.add("misuse:" + k)
    if i is not None:
        w.expect = [["status", ["ABORT"]], ["at", w.pm[r], i]]
        if k[-4:] != "call":
            w.expect.append(["oracle", "diag", {"always": 1}])
        else:
            w.expect.append(["oracle", "gaveup", {"always": 1, "code": code, "text": "requested" if k == "error-call" else ""}])
        w.nontrivial = True
    w.unwaited = [set() for _ in range(w.np)]
    if i is None:
        return World(d, 1, 1).case(nontrivial=False)
    w.finish(dumps=False, free=False)
    return w.case()


reg(Prop("C20", [Group("access", c20_access, 9000), Group("misuse", c20_misuse, 3000)],
         "after a history of allocations and frees, one process makes one access of any form (contiguous, strided, vector, value, read-modify-write, with flag, direct access) whose remote range is "
         "inside, straddles the end, lies past or before, belongs to another process, a freed allocation or a group the caller is not in, is private or no memory at all; an oracle that knows every live range "
         "from the logged address tables decides whether it must be carried out or must stop that process at that operation with a diagnostic and (for a single range) without issuing a transfer; plus "
         "unknown frees, mutex misuse and the application's own calls to give up (whose code and message must come out). Non-trivial: the access is not a plainly valid one.",
         assumptions=["no zero-length accesses and no process ids outside the job", "strided and vector operations whose valid blocks lie in different allocations may do either"]))


# ---------------------------------------------------------------- C19
class O19(Opt):
    nb = 0.45
    shared_local = 0.35
    ops = (1, 4)
    phases = (1, 2)
    nallocs = (1, 2)
    groups = 0.35
    scalar = 0.12
    flag = 0.05
    dla = 0.05
    handles = True
    odd_unit = True
    maxlv = 7
    scribble = 0.6


def c19_body(d, w, o, n):
    for _ in range(n):
        d.span(61)
        k = d.weighted([(6, "data"), (2, "msg"), (3, "groups"), (2, "mutex"), (2, "alloc"), (2, "free"), (1, "local"), (1, "pack")])
        if k == "data":
            seg_data(d, w, o)
        elif k == "msg":
            seg_msg(d, w, d.int(1, 3))
        elif k == "groups":
            seg_groups(d, w, d.int(1, 4))
        elif k == "mutex":
            seg_mutex(d, w)
        elif k == "alloc" and len(w.allocs) < 40:
            a_alloc(d, w, OA(), None, groups=0.4, newgroup=False)
        elif k == "free":
            live = [a for a in w.allocs if a.live]
            if live:
                w.sync("barrier")
                a_free(d, w, d.choice(live), None)
        elif k == "local":
            for r in range(w.np):
                for _ in range(d.int(1, 3)):
                    b = w.lbuf(r, d.int(0, 60), armci=True)
                    if d.bool(0.7):
                        w.lbfree(b)
        elif k == "pack":
            r = d.int(0, w.np - 1)
            n0, counts = shape(d, 60, 1, 4)
            st, ext = strides_of(d, 1, n0, counts, 100)
            a, b = w.lbuf(r, ext), w.lbuf(r, n0 * _prod(counts))
            for i, x in enumerate(blocks(n0, counts, st)):
                b.mem[i * n0:(i + 1) * n0] = a.mem[x:x + n0]
            w.op(r, "wstrided %s %s %s %s" % (a.tok(0), ints(st), ints([n0] + counts), b.tok(0)))
            w.dump(r, b.tok(0), bytes(b.mem), "packed bytes")
            w.lbfree(a)
            w.lbfree(b)
        w.labels.add("service:" + k)
        d.endspan()


def c19(d):
    NP = d.weighted([(3, 2), (4, 3), (3, 4), (1, 1), (1, 5)])
    w = World(d, NP, d.weighted([(5, 1), (4, 3), (1, 2)]))
    sched(d, w)
    tune(d, w, 0.4)
    o = O19()
    if iov_checks(d, w, 0.3):
        o.overlap_acc = o.multi_alloc = True
    for k, vs, p in (("ARMCI_NONCOLLECTIVE_GROUPS", "01", 0.3), ("ARMCI_DEBUG_ALLOC", "01", 0.1), ("ARMCI_EXPLICIT_NB_PROGRESS", "01", 0.2),
                     ("ARMCI_USE_REQUEST_ATOMICS", "01", 0.2), ("ARMCI_RMA_ORDERING", "01", 0.1)):
        if d.bool(p):
            w.env[k] = d.choice(vs)
    libversion(d, w)
    w.cfg["zeroptr"] = d.int(0, 1)
    w.cfg["userop"] = d.int(0, 1)
    w.init(d.choice(["plain", "args", "thread 0"]))
    g_start(w)
    c19_body(d, w, o, d.int(2, 6))
    w.sync("barrier")
    if d.bool():
        a_snapshot(d, w, "contents before the end")
        w.sync("barrier")
    for a in d.perm([a for a in w.allocs if a.live]):
        if a.gid is not None or d.bool(0.6):
            a_free(d, w, a, None)
        else:
            w.labels.add("left-to-finalize")
    g_end_simple(d, w, [g for g in w.groups if g not in w.gv])
    g_end(d, w, reset=d.bool())
    w.cfg["leakcheck"] = 1
    w.finish(dumps=False)
    w.nontrivial = w.nops >= 2
    return w.case()


reg(Prop("C19", [Group("everything", c19, 6000)],
         "programs mixing data phases of every operation form (blocking and not, all element types, up to seven levels, shared and private buffers, segment checks), message, group, mutex, "
         "allocation, local-memory and pack segments in random configurations under AddressSanitizer and UBSan, with the simulator auditing every MPI call, filling freed and fresh memory, reading "
         "source buffers as late as allowed, and counting at the end every window, type, group, communicator, request, info, operation and heap byte the library obtained. Non-trivial: at least two operations."))
