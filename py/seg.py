"""Program segments over objects: groups, messages, mutexes, allocation histories."""
from p_data import *

T5 = [("int", 4, "i"), ("long", 8, "q"), ("llong", 8, "q"), ("float", 4, "f"), ("double", 8, "d")]
INTOPS = ["+", "*", "max", "min", "absmax", "absmin", "or", "land", "&&", "lor", "||", "band", "&", "bor", "|"]
FLOPS = ["+", "*", "max", "min", "absmax", "absmin"]


def fracval(d, ty, v):
    """a floating point value that neither an integer nor, for double, single precision can hold"""
    k = d.int(0, 3)
    if ty == 3:
        return [v / 8, 1 + v * 2.0 ** -20, v * 2.0 ** 100, v * 2.0 ** -120][k]
    return [v / 8, 1 + v * 2.0 ** -40, v * 2.0 ** 900, v * 2.0 ** -900][k]


def gop_values(d, op, ty, n):
    """n values on which the operation is exact in any order"""
    name, size, _ = T5[ty]
    fl = ty >= 3
    big = (1 << (8 * size - 1)) - 1
    out = []
    frac = fl and d.bool(0.6)
    for _ in range(n):
        if op == "+":
            v = d.int(-50, 50)
            if frac:
                v = v / 8 if ty == 3 else v + d.int(-50, 50) * 2.0 ** -34
            if ty in (1, 2) and d.bool(0.3):
                v *= 1 << 34
        elif op == "*":
            v = d.choice([1, -1, 2, -2, 3, 1, -1] if not frac else [1, -1, 2, 0.5, -0.25, 1.5, 1 + 2.0 ** (-1 if ty == 3 else -8)])
            if ty in (1, 2) and d.bool(0.2):
                v *= 1 << 11
        elif op in ("max", "min"):
            v = d.int(-60, 60)
            if frac:
                v = fracval(d, ty, v)
            if not fl and d.bool(0.25):
                v = d.choice([big, -big - 1, big - 1, -big])
            elif ty in (1, 2) and d.bool(0.3):
                v = v * (1 << 33) + d.int(-3, 3)
        elif op in ("absmax", "absmin"):
            v = d.int(-60, 59)
            v += v >= 0 and fl            # no floating point zero
            if frac:
                v = fracval(d, ty, v)
            if not fl and d.bool(0.2):
                v = d.choice([big, -big])
            elif ty in (1, 2) and d.bool(0.3):
                v = v * (1 << 33) + d.int(-3, 3)
        elif op in ("land", "&&", "lor", "||"):
            v = d.choice([0, 0, 1, -1, 2, 1 << 30])
            if ty in (1, 2) and d.bool(0.2):
                v = 1 << 40
        else:
            v = d.int(-(1 << 20), 1 << 20) if d.bool() else d.choice([0, -1, big, -big - 1, 0x55555555 & big])
        out.append(v)
    return out


def gop_model(op, cols):
    """cols: one value list per member"""
    res = []
    for vs in zip(*cols):
        if op == "+":
            x = sum(vs)
        elif op == "*":
            x = 1
            for v in vs:
                x *= v
        elif op == "max":
            x = max(vs)
        elif op == "min":
            x = min(vs)
        elif op == "absmax":
            x = max(abs(v) for v in vs)
        elif op == "absmin":
            x = min(abs(v) for v in vs)
        elif op in ("land", "&&"):
            x = int(all(vs))
        elif op in ("lor", "||"):
            x = int(any(vs))
        elif op in ("band", "&"):
            x = -1
            for v in vs:
                x &= v
        else:
            x = 0
            for v in vs:
                x |= v
        res.append(x)
    return res


def packv(ty, vals):
    f = T5[ty][2]
    return struct.pack("<%d%s" % (len(vals), f), *([float(v) for v in vals] if ty >= 3 else vals))


class MBuf:
    """a message buffer of one process: private or in its shared memory, with guard bytes"""

    def __init__(self, d, w, r, data, align, shared=0.3):
        self.w, self.r, self.n = w, r, len(data)
        self.lb = None
        c = [(a, z) for a in w.allocs if a.live and r in a.members for z in a.zones[r] if z.len >= len(data) + align and w.uses(z)]
        if c and data and d.bool(shared):
            a, z = d.choice(c)
            lo = -(-z.off // align)
            off = align * d.int(lo, (z.off + z.len - len(data)) // align)
            if off + len(data) <= z.off + z.len:
                self.ref = Ref(a, r, off, len(data))
                self.span = Ref(a, r, z.off, z.len)
                w.store(r, self.ref, data)
                w.labels.add("shared-buffer")
                return
        front, back = align * d.int(0, 1), d.choice([0, 3, 8])
        self.lb = w.lbuf(r, front + len(data) + back, bytes([0x5c] * front) + bytes(data) + bytes([0xa5] * back), armci=d.bool(0.1))
        self.ref = Ref(self.lb, r, front, len(data))
        self.span = Ref(self.lb, r, 0, len(self.lb.mem))

    def tok(self):
        return self.ref.tok()

    def set(self, data):
        self.ref.mem[self.ref.off:self.ref.off + len(data)] = data

    def check(self, why):
        if self.span.len:
            self.w.dump(self.r, self.span.tok(), bytes(self.span.mem[self.span.off:self.span.off + self.span.len]), why)

    def done(self):
        if self.lb:
            self.w.lbfree(self.lb)


def groups_of(w):
    """usable groups: gid -> members"""
    return {g: m for g, m in w.groups.items() if g not in getattr(w, "dead_groups", ())}


def msg_gop(d, w):
    ty = d.int(0, 4)
    op = d.choice(INTOPS if ty < 3 else FLOPS)
    n = d.weighted([(5, 1), (3, 3), (2, 7), (1, 0), (1, 40), (1, 300)] + ([(9, 20000)] if w.bigmsg else []))
    n = d.int(1, n) if n else 0
    G = groups_of(w)
    form = d.choice(["scope", "typed", "gscope", "gtyped"])
    gid = None
    if form[0] == "g":
        if not G:
            form = form[1:]
        else:
            gid = d.choice(sorted(G))
    mem = G[gid] if gid is not None else list(range(w.np))
    scope = d.choice([0, 0, 2, 1]) if "scope" in form else 0
    cols = {r: gop_values(d, op, ty, min(n, 97 + r)) for r in mem}
    if n > 97:
        cols = {r: (v * (n // len(v) + 1))[:n] for r, v in cols.items()}
    if len(mem) == 1 or scope == 1:
        # a reduction of one contribution: only values on which normalisation does not matter
        for r in mem:
            if op in ("land", "&&", "lor", "||"):
                cols[r] = [int(bool(v)) for v in cols[r]]
            elif op in ("absmax", "absmin"):
                cols[r] = [abs(v) for v in cols[r]]
    res = gop_model(op, [cols[r] for r in mem])
    lim = 1 << (8 * T5[ty][1] - 1)
    if ty < 3 and any(not -lim <= v < lim for v in res):
        return
    if ty == 3 and op in "+*" and any(abs(v) >= 1 << 20 or v * 8 != int(v * 8) for v in res):
        return
    if ty == 4 and op == "*" and any(abs(v) >= 1 << 20 or v * 2.0 ** 30 != int(v * 2.0 ** 30) for v in res):
        return
    bufs = {}
    for r in mem:
        b = bufs[r] = MBuf(d, w, r, packv(ty, cols[r]), T5[ty][1])
        w.op(r, "gop %s %d %s %d %s %d%s" % (form, scope, b.tok(), n, op, ty, "" if gid is None else " %d" % gid))
    for r in mem:
        bufs[r].set(packv(ty, res if scope != 1 else gop_model(op, [cols[r]])))
        bufs[r].check("result of %s over %d %ss%s" % (op, n, T5[ty][0], " within the node" if scope == 1 else ""))
        bufs[r].done()
    w.labels |= {"gop:" + op, "gop-type:" + T5[ty][0], "gop-form:" + form}
    w.nops += 1
    if scope == 1:
        w.labels.add("scope-node")


def msg_sel(d, w):
    ty = d.int(0, 4)
    n = T5[ty][1] + d.choice([0, 4, 16, 1, 33] if not w.bigmsg else [0, 500, 5000])
    op = d.choice(["min", "max"])
    form = d.choice(["plain", "scope"])
    scope = d.choice([0, 2, 1]) if form == "scope" else 0
    mem = range(w.np)
    contrib = d.subset(mem, 1)
    if d.bool(0.4) or scope == 1:
        contrib = list(mem)
    vals = d.perm(range(-3, w.np * 3))[:w.np]
    if ty in (1, 2) and d.bool(0.4):
        vals = [v * (1 << 33) for v in vals]
    elif ty >= 3 and d.bool(0.6):
        vals = d.choice([[v / 8 for v in vals], [1 + v * 2.0 ** (-20 if ty == 3 else -40) for v in vals], [v * 2.0 ** (100 if ty == 3 else 900) for v in vals]])
    elif d.bool(0.2) and ty < 3:
        vals[d.int(0, w.np - 1)] = d.choice([1, -1]) * ((1 << (8 * T5[ty][1] - 1)) - 1)
        if len(set(vals)) < w.np:
            return
    bufs, data = {}, {}
    for r in mem:
        data[r] = packv(ty, [vals[r]]) + pat(RAW, w.newsalt(), n - T5[ty][1])
        b = bufs[r] = MBuf(d, w, r, data[r], 8)
        w.op(r, "sel %s %d %s %d %s %d %d" % (form, scope, b.tok(), n, op, ty, 1 if r in contrib else 0))
    best = (min if op == "min" else max)(contrib, key=lambda r: vals[r])
    for r in mem:
        bufs[r].set(data[r if scope == 1 else best])
        bufs[r].check("selection of the %simum of %d contributions" % (op, len(contrib)))
        bufs[r].done()
    w.labels |= {"sel:" + op, "sel-type:" + T5[ty][0]}
    if len(contrib) < w.np:
        w.labels.add("sel-partial")
    w.nops += 1


def msg_bcast(d, w):
    G = groups_of(w)
    form = d.choice(["plain", "brdcst", "scope", "group"])
    gid = None
    if form == "group":
        if not G:
            form = "plain"
        else:
            gid = d.choice(sorted(G))
    mem = G[gid] if gid is not None else list(range(w.np))
    scope = d.choice([0, 2, 1]) if form in ("scope", "group") else 0
    n = d.weighted([(4, 8), (3, 40), (1, 300), (1, 0)] + ([(9, 70000)] if w.bigmsg else []))
    n = d.int(1, n) if n else 0
    root = d.choice(mem)
    data = {r: pat(RAW, w.newsalt(), n) for r in mem}
    bufs = {}
    for r in mem:
        b = bufs[r] = MBuf(d, w, r, data[r], 1)
        w.op(r, "bcast %s %d %s %d %d%s" % (form, scope, b.tok(), n, root, "" if gid is None else " %d" % gid))
    for r in mem:
        bufs[r].set(data[r if scope == 1 else root])
        bufs[r].check("broadcast of %d bytes from process %d" % (n, root))
        bufs[r].done()
    w.labels.add("bcast:" + form)
    if gid is not None and root != mem.index(root):
        w.labels.add("bcast-root-translated")
    w.nops += 1


def msg_p2p(d, w):
    if w.np < 2:
        return
    k = d.choice(["one", "any", "many"])
    hub = d.int(0, w.np - 1)
    others = [r for r in range(w.np) if r != hub]
    tag = d.choice([0, 1, 5, 32767, d.int(2, 99)])
    if k != "one":
        # a receive from anyone must not match a later exchange
        w.ntag = getattr(w, "ntag", 0) + 1
        tag = 1000 + w.ntag
    if k != "many":
        src = d.choice(others)
        for _ in range(d.int(1, 2)):
            n = d.weighted([(4, 8), (2, 60), (1, 0), (1, 400)] + ([(9, 70000)] if w.bigmsg else []))
            n = d.int(1, n) if n else 0
            extra = d.choice([0, 0, 5, 64])
            data = pat(RAW, w.newsalt(), n)
            s = MBuf(d, w, src, data, 1)
            t = MBuf(d, w, hub, pat(RAW, w.newsalt(), n + extra), 1)
            # the program's own MPI traffic, same processes and tags
            own = d.choice(["before", "pending"]) if d.bool(0.2) else None
            if own == "before":
                w.op(src, "tokown %d %d" % (w.pm[hub], tag))
            elif own:
                w.op(hub, "towni %d" % w.pm[src])
            w.op(src, "snd %d %s %d %d" % (tag, s.tok(), n, hub))
            if k == "any":
                i = w.op(hub, "rcvany %d %s %d" % (tag, t.tok(), n + extra))
                w.exp("V", hub, i, [n, src], "receive from anyone")
            elif d.bool(0.3):
                w.op(hub, "rcvn %d %s %d %d" % (tag, t.tok(), n + extra, src))
            else:
                i = w.op(hub, "rcv %d %s %d %d" % (tag, t.tok(), n + extra, src))
                w.exp("V", hub, i, [n], "length received from process %d" % src)
            if own == "before":
                w.op(hub, "rtokv %d %d" % (w.pm[src], tag))
                w.op(src, "twtok 0")
            elif own:
                w.op(src, "tokv %d %d" % (w.pm[hub], tag))
                w.op(hub, "twtok 1")
            if own:
                w.labels.add("own-mpi-traffic:" + own)
            t.set(data)
            t.check("message of %d bytes in a buffer of %d" % (n, n + extra))
            s.check("sent buffer")
            s.done()
            t.done()
            w.nops += 1
        w.labels.add("p2p:" + k)
        return
    sent = {}
    for src in others:
        for _ in range(d.int(0, 2)):
            n = d.int(0, 30)
            data = pat(RAW, w.newsalt(), n)
            s = MBuf(d, w, src, data, 1)
            w.op(src, "snd %d %s %d %d" % (tag, s.tok(), n, hub))
            s.check("sent buffer")
            s.done()
            sent.setdefault(src, []).append(data.hex())
    rec = []
    for _ in range(sum(map(len, sent.values()))):
        init = bytes([0x77] * 33)
        t = w.lbuf(hub, 33, init)
        i = w.op(hub, "rcvany %d %s 33" % (tag, t.tok(0)))
        w.dump(hub, t.tok(0), "??" * 33, "receive buffer")
        rec.append([i, "d%d" % w.nd])
        w.lbfree(t)
        w.nops += 1
    if rec:
        w.expect.append(["oracle", "anysrc", {"hub": w.pm[hub], "rec": rec, "sent": {str(k): v for k, v in sent.items()}, "fill": "77"}])
        w.labels.add("p2p:many")


def msg_tree(d, w):
    sc = d.choice([0, 2])
    at = []
    for r in range(w.np):
        at.append([w.pm[r], w.op(r, "bintree %d" % sc)])
    w.expect.append(["oracle", "bintree", {"at": at}])
    w.labels.add("bintree")
    w.nops += 1


def seg_msg(d, w, n):
    w.sync("barrier")
    for _ in range(n):
        d.span(31)
        k = d.weighted([(5, msg_gop), (2, msg_sel), (3, msg_bcast), (3, msg_p2p), (1, msg_tree)])
        k(d, w)
        d.endspan()
    w.sync("barrier")


# ------------------------------------------------------------------- groups
def g_start(w):
    w.comm = {0: list(range(w.np))}
    w.gv, w.alias, w.freed = {}, set(), {}
    w.deft = [0] * w.np
    w.nck = 0
    w.inuse = {}          # communicator -> number of objects that need it
    w.noncoll = truth(w.env.get("ARMCI_NONCOLLECTIVE_GROUPS"))
    w.dead_groups = set()


def g_new(d, w):
    used = set(w.gv)
    for g in range(60):
        if g not in used:
            w.freed.pop(g, None)
            w.dead_groups.discard(g)
            return g
    return None


def g_put(w, gid, members, callers):
    ck = None
    if members:
        w.nck += 1
        ck = w.nck
        w.comm[ck] = list(members)
        w.groups[gid] = list(members)
    w.gv[gid] = {r: ck if r in members else None for r in callers}
    if not members:
        w.groups.pop(gid, None)
    return ck


def g_create(d, w, like=None):
    P, ckp = None, None
    if d.bool(0.5):
        cands = [ck for ck in w.comm if all(w.deft[r] == ck for r in w.comm[ck])]
        if not cands:
            return
        ckp = d.choice(sorted(cands))
    else:
        cands = [g for g in w.gv if g in w.groups and g not in w.dead_groups or g in w.alias and set(w.gv[g]) == set(range(w.np)) and set(w.gv[g].values()) == {0}]
        if not cands:
            return
        P = d.choice(sorted(cands))
        ckp = [c for c in w.gv[P].values() if c is not None][0]
    D = w.comm[ckp]
    lst = d.perm(d.subset(range(len(D)), 1))
    if d.bool(0.06) and not w.noncoll:
        lst = []
        w.labels.add("empty-group")
    gid = g_new(d, w)
    if gid is None:
        return
    members = [D[i] for i in lst]
    callers = list(D) if not w.noncoll else list(members)
    if w.noncoll and d.bool(0.3):
        callers = list(D)          # others may call as well
    for r in callers:
        w.op(r, "gcreate %d %s" % (gid, ints(lst)) if P is None else "gchild %d %d %s" % (gid, P, ints(lst)))
    g_put(w, gid, members, callers)
    w.labels.add("group:create" if P is None else "group:child")
    if ckp != 0:
        w.labels.add("group:nested")
    if members != sorted(members):
        w.labels.add("group:unsorted")
    return gid


def _parents(w):
    return [g for g in w.gv if g in w.groups and g not in w.dead_groups and g not in w.alias]


def g_split(d, w):
    P = _parents(w)
    if not P:
        return
    P = d.choice(sorted(P))
    D = w.groups[P]
    nc = d.int(1, 3)
    gids = []
    for _ in range(nc):
        g = g_new(d, w)
        if g is None:
            break
        w.gv[g] = {}
        gids.append(g)
    if not gids:
        return
    cols = [d.choice([0, 1, 7, 1000]) for _ in gids]
    if len(set(cols)) < len(cols):
        cols = [5, 0, 3][:len(gids)]
    part = {g: [] for g in gids}
    for i, r in enumerate(D):
        c = d.int(0, len(gids) - 1)
        key = d.int(-2, 2)
        w.op(r, "gsplit %d %d %d %d" % (gids[c], P, cols[c], key))
        part[gids[c]].append((key, i, r))
    for g in gids:
        mem = [x[2] for x in sorted(part[g])]
        if mem:
            g_put(w, g, mem, mem)
        else:
            del w.gv[g]
    w.labels.add("group:split")


def g_dup(d, w):
    P = _parents(w)
    if not P:
        return
    P = d.choice(sorted(P))
    g = g_new(d, w)
    if g is None:
        return
    D = w.groups[P]
    for r in D:
        w.op(r, "gdup %d %d" % (g, P))
    g_put(w, g, D, D)
    w.labels.add("group:dup")


def g_alias(d, w):
    g = g_new(d, w)
    if g is None:
        return
    w.gv[g] = {}
    w.alias.add(g)
    w.groups.pop(g, None)
    who = range(w.np) if d.bool(0.6) else d.subset(range(w.np), 1)
    k = d.choice(["gworld", "ggetdef"])
    for r in who:
        w.op(r, "%s %d" % (k, g))
        w.gv[g][r] = 0 if k == "gworld" else w.deft[r]
    w.labels.add("group:" + k)


def g_setdef(d, w):
    c = [g for g in w.gv if any(v is not None for v in w.gv[g].values())]
    if not c:
        return
    g = d.choice(sorted(c))
    can = [r for r in sorted(w.gv[g]) if w.gv[g][r] is not None]
    who = can if d.bool(0.6) else d.subset(can, 1)
    for r in who:
        w.op(r, "gsetdef %d" % g)
        w.deft[r] = w.gv[g][r]
    w.labels.add("group:set-default")


def g_info1(w, r, g):
    i = w.op(r, "ginfo %d" % g)
    ck = w.gv[g].get(r) if g in w.gv else None
    if ck is None:
        w.exp("V", r, i, [1, -1, 0, "abs"], "rank and size in a group the process is not in")
    else:
        m = w.comm[ck]
        w.exp("V", r, i, [0, m.index(r), len(m), "abs"] + m, "rank, size and absolute ids of a group")


def g_info(d, w):
    if not w.gv:
        return
    g = d.choice(sorted(w.gv))
    for r in sorted(w.gv[g]):
        if d.bool(0.8):
            g_info1(w, r, g)


def g_free(d, w, g=None):
    if g is None:
        c = [x for x in w.gv if x not in w.alias and g_freeable(w, x)]
        if not c:
            return
        g = d.choice(sorted(c))
    cks = {c for c in w.gv[g].values() if c is not None}
    for r in sorted(w.gv[g]):
        w.op(r, "gfree %d" % g)
        if d.bool(0.3):
            i = w.op(r, "ginfo %d" % g)
            w.exp("V", r, i, [1, -1, 0, "abs"], "a freed group")
    for a in list(w.gv):
        for r in list(w.gv[a]):
            if w.gv[a][r] in cks and a != g:
                del w.gv[a][r]
        if not w.gv[a] and a in w.alias:
            del w.gv[a]
            w.alias.discard(a)
    del w.gv[g]
    w.groups.pop(g, None)
    w.dead_groups.add(g)
    for c in cks:
        del w.comm[c]
    w.labels.add("group:free")


def g_freeable(w, g):
    cks = {c for c in w.gv[g].values() if c is not None}
    return not any(c in cks for c in w.deft) and not any(a.live and a.gid == g for a in w.allocs) and not w.inuse.get(g)


def g_use(d, w):
    """collective use of a group"""
    P = _parents(w)
    if not P:
        return
    g = d.choice(sorted(P))
    mem = w.groups[g]
    k = d.choice(["barrier", "bcast", "gop"])
    if k == "barrier":
        for r in mem:
            w.op(r, "mgbar %d" % g)
    elif k == "bcast":
        root = d.choice(mem)
        data = pat(RAW, w.newsalt(), d.int(1, 12))
        for r in mem:
            b = w.lbuf(r, len(data), data if r == root else bytes(len(data)))
            w.op(r, "bcast group 0 %s %d %d %d" % (b.tok(0), len(data), root, g))
            b.mem[:] = data
            w.dump(r, b.tok(0), data, "group broadcast from process %d" % root)
            w.lbfree(b)
    else:
        vals = {r: d.int(-9, 9) for r in mem}
        for r in mem:
            b = w.lbuf(r, 4, struct.pack("<i", vals[r]))
            w.op(r, "gop gscope 0 %s 1 + 0 %d" % (b.tok(0), g))
            b.mem[:] = struct.pack("<i", sum(vals.values()))
            w.dump(r, b.tok(0), bytes(b.mem), "group sum")
            w.lbfree(b)
    w.nops += 1
    w.labels.add("group-use:" + k)


def g_end(d, w, reset=True):
    """free every group (allocations on them must be gone)"""
    if any(w.deft) and reset:
        for r in range(w.np):
            if w.deft[r]:
                w.op(r, "gworld 61")
                w.op(r, "gsetdef 61")
    w.deft = [0] * w.np
    for g in d.perm(sorted(x for x in w.gv if x not in w.alias)):
        g_free(d, w, g)


def seg_groups(d, w, n, free=True):
    if not hasattr(w, "gv"):
        g_start(w)
    for _ in range(n):
        d.span(32)
        f = d.weighted([(6, g_create), (3, g_split), (1, g_dup), (1, g_alias), (2, g_setdef), (4, g_info), (2, g_free), (3, g_use)])
        f(d, w)
        d.endspan()


# -------------------------------------------------------------- allocations
class OA(Opt):
    nb = 0.3
    scalar = 0.15
    ops = (1, 3)
    local_dump = 0.1


def a_alloc(d, w, o, hist, groups=0.35, how=True, newgroup=True, fill=True):
    gid = None
    if d.bool(groups):
        G = groups_of(w)
        if G and (d.bool(0.6) or not newgroup):
            gid = d.choice(sorted(G))
        elif newgroup and len(w.groups) < 12:
            gid = w.group(d.perm(d.subset(range(w.np), 1)))
    members = w.groups[gid] if gid is not None else list(range(w.np))
    k = d.weighted([(5, "mixed"), (2, "same"), (1, "zero"), (2, "one")])
    zones, sizes = {}, {}
    only = d.choice(members)
    same = zones_for(d, False, o.types, True)
    for r in members:
        if k == "zero" or (k == "one" and r != only) or (k == "mixed" and d.bool(0.25)):
            zones[r], sizes[r] = [], 0
        elif k == "same":
            zones[r], sizes[r] = [Zone(z.off, z.len, z.type) for z in same[0]], same[1]
        else:
            zones[r], sizes[r] = zones_for(d, False, o.types, d.bool(0.7))
    verb = "malloc" if gid is None else "gmalloc"
    if how and d.bool(0.15):
        verb = "md" + verb
    P = "!" if how and d.bool(0.1) and verb != "gmalloc" else ""
    a = w.alloc(sizes, gid, zones, verb=P + verb, fill=fill)
    for r in members:
        for z in a.zones[r]:
            z.role, z.owner = "x", d.choice(members)
    if hist is not None:
        hist.append(["a", a.id, [[w.pm[r], a.at[r], a.rsize[r]] for r in members]])
    if any(sizes.values()):
        if gid is None:
            w.allop(d.choice(["barrier", "mbar"]))
        else:
            for r in members:
                w.op(r, "mgbar %d" % gid)
    if not any(sizes.values()):
        w.labels.add("all-zero")
    elif not all(sizes.values()):
        w.labels.add("zero-size")
    if gid is not None:
        w.labels.add("group-alloc")
    a.how = verb
    return a


def a_free(d, w, a, hist):
    for r in a.members:
        for p in list(w.pend[r]):
            if p in w.pend[r] and any(x[0][0] == id(a) for x in p["acc"]):
                w.complete(r, p)
        w.unf[r] = [x for x in w.unf[r] if x[1][0][0] != id(a)]
        tok = a.tok(r, 0) if a.mem.get(r) else "n"
        P = "!" if d.bool(0.1) else ""
        if a.gid is None:
            w.op(r, "%s%s %s" % (P, d.choice(["free", "free", "mdfree"]), tok))
        else:
            w.op(r, "gfreemem %s %d" % (tok, a.gid))
    a.live = False
    if hist is not None:
        hist.append(["f", a.id])


def a_snapshot(d, w, why):
    live = [a for a in w.allocs if a.live and a.mem]
    if not live:
        return
    w.sync("barrier")
    for a in live:
        if d.bool(0.7):
            w.dump_alloc(a, why)
    w.sync("barrier")


# ------------------------------------------------------------------- mutexes
def seg_mutex(d, w, keys=list(range(38)), hdl=0.4):
    """a mutex set in the life of a program; every lock is taken by the generated order"""
    np = w.np
    G = groups_of(w)
    gid = None
    mem = list(range(np))
    if G and d.bool(hdl):
        gid = d.choice(sorted(G))
        mem = w.groups[gid]
    counts = {r: d.int(0, 2) for r in mem}
    if not any(counts.values()):
        counts[d.choice(mem)] = 1
    w.mxid = getattr(w, "mxid", 0)
    mid = w.mxid % 30
    w.mxid += 1
    w.sync("barrier")
    for r in mem:
        w.op(r, "mcreate %d" % counts[r] if gid is None else "mxcreate %d %d %d" % (mid, counts[r], gid))
    locks = [(m, p) for p in mem for m in range(counts[p])][:len(keys)]
    for r in mem:
        for _ in range(d.int(0, 2)):
            hold = sorted({d.int(0, len(locks) - 1) for _ in range(d.int(1, 2))})
            for v, seq in (("lock", hold), ("unlock", hold[::-1] if d.bool() else hold)):
                for k in seq:
                    m, p = locks[k]
                    if gid is None:
                        w.op(r, "%s %d %d %d" % (v, m, p, keys[k]))
                    else:
                        w.op(r, "mx%s %d %d %d %d" % (v, mid, m, p, keys[k]))
    w.sync("barrier")
    for r in mem:
        w.op(r, "mdestroy" if gid is None else "mxdestroy %d" % mid)
    w.labels.add("mutexes" if gid is None else "mutex-handle")
    w.nops += 1


class OS(Opt):
    """small race-free data phase"""
    phases = (1, 2)
    ops = (1, 3)
    nallocs = (1, 2)
    scalar = 0.2
    flag = 0.05
    dla = 0.05
    groups = 0.2
    handles = True


def seg_data(d, w, o=OS):
    o = o() if isinstance(o, type) else o
    if not any(a.live and a.mem for a in w.allocs):
        make_allocs(d, w, o)
    w.sync("barrier")
    run_phases(d, w, o)


def seg_identity(d, w):
    at = []
    for r in range(w.np):
        i = w.op(r, "me")
        j = w.op(r, "dom")
        w.exp("V", r, i, [r, w.np], "process id and count")
        w.op(r, "gworld 62")
        k = w.op(r, "ginfo 62")
        w.exp("V", r, k, [0, r, w.np, "abs"] + list(range(w.np)), "the world group")
        at.append([w.pm[r], j])
    w.expect.append(["oracle", "domains", {"at": at}])
    w.labels.add("identity")
    w.nops += 1
