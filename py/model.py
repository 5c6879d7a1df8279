"""Reference model and program builder.

Memory is bytearrays; every operation is applied to the model when it is added to
the program.  Programs are race-free by construction: each phase gives every zone
of every process's shared memory to one process (exclusive), to all readers, or to
concurrent accumulates of one type; phases are separated by a synchronisation."""
import struct
from bisect import bisect_left
import numpy
from pbt import Case

INT, LONG, FLT, DBL, CPL, DCP = range(6)
ESZ = [4, 8, 4, 8, 8, 16]
TNAME = ["int", "long", "float", "double", "complex", "dcomplex"]
RAW = -1


def _f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


WIDE = 256 + 2.0 ** -10     # doubles that single precision cannot hold
# (granularity, bound) within which sums and products are exact: 23 and 52 bits
EXACT = {4: (8.0, float(1 << 20)), 8: (2.0 ** 34, float(1 << 18))}


def pat(t, salt, n):
    """n bytes of valid, exactly representable elements of type t (RAW: any bytes)"""
    if n > 4096:
        if t == RAW:
            i = numpy.arange(n, dtype=numpy.int64)
            return ((salt * 89 + i * 37 + (i * i >> 3) + (i >> 8) * 11) & 0xff).astype(numpy.uint8).tobytes()
        unit = pat(t, salt, 199 * ESZ[t])      # the values have period 199
        k = n // ESZ[t] * ESZ[t]
        return (unit * (k // len(unit) + 1))[:k] + bytes(n - k)
    if t == RAW:
        return bytes(((salt * 89 + i * 37 + (i * i >> 3) + (i >> 8) * 11) & 0xff) for i in range(n))
    k = n // ESZ[t]
    v = [((salt * 31 + i * 17) % 199) - 99 for i in range(2 * k)]
    if t == INT:
        b = struct.pack("<%di" % k, *v[:k])
    elif t == LONG:
        b = struct.pack("<%dq" % k, *[x * 16777259 for x in v[:k]])
    elif t == FLT:
        b = struct.pack("<%df" % k, *v[:k])
    elif t == DBL:
        b = struct.pack("<%dd" % k, *[x * WIDE for x in v[:k]])
    elif t == CPL:
        b = struct.pack("<%df" % (2 * k), *v)
    else:
        b = struct.pack("<%dd" % (2 * k), *[x * WIDE for x in v])
    return b + bytes(n - len(b))


SCALES = {
    INT: [1, 0, -1, 2, 3, -5, 17],
    LONG: [1, 0, -1, 2, 3, -5, 17, 2147483648 + 5, -4294967296],
    FLT: [1.0, 0.0, -1.0, 2.0, 0.5, -3.0, 1.125],
    DBL: [1.0, 0.0, -1.0, 2.0, 0.5, -3.0, 1 + 2.0 ** -24],
    CPL: [(1.0, 0.0), (0.0, 0.0), (0.0, 1.0), (1.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (2.0, -3.0), (1.0, -1.0), (0.5, 0.0)],
}
SCALES[DCP] = SCALES[CPL] + [(1 + 2.0 ** -24, 0.0), (1.0, 2.0 ** -24)]


def scale_bytes(t, s):
    if t == INT:
        return struct.pack("<i", s)
    if t == LONG:
        return struct.pack("<q", s)
    if t == FLT:
        return struct.pack("<f", s)
    if t == DBL:
        return struct.pack("<d", s)
    return struct.pack("<ff" if t == CPL else "<dd", *s)


class Inexact(Exception):
    pass


def acc_bytes(t, dst, src, s):
    """dst + s*src element-wise; raises Inexact when the result would depend on rounding"""
    n = len(src) // ESZ[t]
    if n > 64:
        return acc_big(t, dst, src, s)
    if t in (INT, LONG):
        f = "<%d%s" % (n, "i" if t == INT else "q")
        a, b = struct.unpack(f, dst), struct.unpack(f, src)
        lim = (1 << 30) if t == INT else (1 << 62)
        out = []
        for x, y in zip(a, b):
            z = s * y
            w = x + z
            if abs(z) >= lim or abs(w) >= lim:
                raise Inexact()
            out.append(w)
        return struct.pack(f, *out)
    cx = t in (CPL, DCP)
    m = n * (2 if cx else 1)
    f = "<%d%s" % (m, "f" if t in (FLT, CPL) else "d")
    a, b = struct.unpack(f, dst), struct.unpack(f, src)
    g, lim = EXACT[4 if t in (FLT, CPL) else 8]
    if g > 8 and any(x * 8 != int(x * 8) for x in (s if cx else (s,))) and any(y * 1024 != int(y * 1024) for y in b):
        raise Inexact()
    if not cx:
        z = [s * y for y in b]
    else:
        z = []
        for i in range(0, m, 2):
            z.append(b[i] * s[0] - b[i + 1] * s[1])
            z.append(b[i] * s[1] + b[i + 1] * s[0])
    out = [x + y for x, y in zip(a, z)]
    for v in out + z:
        if v != v or abs(v) >= lim or (v * g) != int(v * g):
            raise Inexact()
    out = [v + 0.0 for v in out]
    return struct.pack(f, *out)


def acc_big(t, dst, src, s):
    if t in (INT, LONG):
        f = numpy.int32 if t == INT else numpy.int64
        a, b = (numpy.frombuffer(x, dtype=f).astype(numpy.int64) for x in (dst, src))
        lim = (1 << 30) if t == INT else (1 << 62)
        m = max(abs(int(b.max())), abs(int(b.min()))) * abs(s)
        if m >= lim or m + max(abs(int(a.max())), abs(int(a.min()))) >= lim:
            raise Inexact()
        return (a + b * s).astype(f).tobytes()
    cx = t in (CPL, DCP)
    f = numpy.float32 if t in (FLT, CPL) else numpy.float64
    a, b = (numpy.frombuffer(x, dtype=f).astype(numpy.float64) for x in (dst, src))
    g, lim = EXACT[4 if t in (FLT, CPL) else 8]
    if g > 8 and any(x * 8 != int(x * 8) for x in (s if cx else (s,))) and (b * 1024 != numpy.floor(b * 1024)).any():
        raise Inexact()
    if not cx:
        z = b * s
    else:
        z = numpy.empty_like(b)
        z[0::2] = b[0::2] * s[0] - b[1::2] * s[1]
        z[1::2] = b[0::2] * s[1] + b[1::2] * s[0]
    out = a + z
    g, lim = EXACT[4 if t in (FLT, CPL) else 8]
    for v in (out, z):
        if not (numpy.abs(v) < lim).all() or (v * g != numpy.floor(v * g)).any():
            raise Inexact()
    return (out + 0.0).astype(f).tobytes()


def hexs(b):
    return bytes(b).hex() if len(b) else "-"


def ints(l):
    return ",".join(map(str, l)) if l else "-"


def truth(v):
    return v is not None and v[:1] in ("T", "t", "1", "y", "Y")


class Zone:
    __slots__ = ("off", "len", "type", "role", "owner", "th")

    def __init__(self, off, n, t):
        self.off, self.len, self.type = off, n, t
        self.role, self.owner = "ro", -1
        self.th = 0      # thread that uses the zone inside a parallel block; -1: all but thread 0


class Alloc:
    def __init__(self, aid, members, gid):
        self.id, self.members, self.gid = aid, members, gid
        self.mem, self.zones, self.at = {}, {}, {}
        self.live = True
        self.rsize = {}    # real size
        self.pieces = {}   # huge sparse memory: [(model offset, real offset)], sorted

    def real(self, r, off):
        for m, q in reversed(self.pieces.get(r, ())):
            if off >= m:
                return off - m + q
        return off

    def spans(self, r, off, n):
        """the pieces of model bytes [off, off+n)"""
        cuts = [off] + [m for m, q in self.pieces.get(r, ()) if off < m < off + n] + [off + n]
        return [(x, y) for x, y in zip(cuts, cuts[1:]) if x < y]

    def tok(self, r, off):
        return "a%d.%d+%d" % (self.id, self.members.index(r), self.real(r, off))


class LB:
    def __init__(self, lid, rank, n):
        self.id, self.rank = lid, rank
        self.mem = bytearray(n)

    def tok(self, off):
        return "l%d+%d" % (self.id, off)


class Ref:
    """a byte range in some space: local buffer, or shared memory of a process"""
    __slots__ = ("sp", "rank", "off", "len")

    def __init__(self, sp, rank, off, n=0):
        self.sp, self.rank, self.off, self.len = sp, rank, off, n

    def tok(self, d=0):
        return self.sp.tok(self.off + d) if isinstance(self.sp, LB) else self.sp.tok(self.rank, self.off + d)

    @property
    def mem(self):
        return self.sp.mem if isinstance(self.sp, LB) else self.sp.mem[self.rank]

    def key(self):
        return (id(self.sp), self.rank)


DEFAULT_CFG = {}


class World:
    bigmsg = False     # messages of up to 70 kB

    def __init__(self, d, np, variant=1, extra_build=None):
        self.d, self.np = d, np
        self.lines = [[] for _ in range(np)]
        self.expect = [["strict"]]
        self.env, self.cfg = {}, {}
        self.allocs, self.groups = [], {}
        self.labels = set()
        self.nd = 0
        self.nlb = [0] * np
        self.live_lb = {}
        self.free_lb = [[] for _ in range(np)]
        self.build = {"variant": variant}
        if extra_build:
            self.build.update(extra_build)
        self.seed = 0
        self.nops = 0
        self.nontrivial = False
        self.salt = 0
        self.pend = [[] for _ in range(np)]       # pending non-blocking accesses
        self.unf = [[] for _ in range(np)]        # remote writes not yet fenced (weak discipline)
        self.weak = False
        self.nh = [0] * np
        self.aggr = {}
        self.copy_mode = False
        self.unified = True
        self.prefix = lambda: ""
        self.inited = False
        self.pm = list(range(np))  # process id -> MPI rank
        self.reset_state()
        self.cur_th = None       # thread whose operations are being generated
        self.no_self = False     # no one-sided operations on the caller's own memory
        self.stretch = None      # huge gaps inside allocations: function of the zones of a process

    def reset_state(self):
        """object state at the start of an initialized period"""
        np = self.np
        self.allocs, self.groups, self.gview = [], {}, {}
        self.nlb = [0] * np
        self.live_lb = {}
        self.free_lb = [[] for _ in range(np)]
        self.pend = [[] for _ in range(np)]
        self.unf = [[] for _ in range(np)]
        self.nh = [0] * np
        self.unwaited = [set() for _ in range(np)]   # handles that may hold a request

    def epoch(self, pm):
        """from now on the processes are MPI ranks pm[0], pm[1], ... with fresh library state"""
        self.pm, self.np = list(pm), len(pm)
        self.reset_state()

    # ---------------------------------------------------------------- emission
    def op(self, r, s):
        l = self.lines[self.pm[r]]
        l.append(s if self.cur_th is None else "@%d %s" % (self.cur_th, s))
        return len(l) - 1

    def exp(self, kind, r, k, v, why):
        self.expect.append([kind, self.pm[r], k, v, why])

    def allop(self, s, ranks=None):
        for r in (ranks if ranks is not None else range(self.np)):
            self.op(r, s)

    def newsalt(self):
        self.salt += 1
        return self.salt

    def dump(self, r, tok, exp, why):
        self.nd += 1
        tag = "d%d" % self.nd
        self.op(r, "dump %s %s %d" % (tag, tok, len(exp) if not isinstance(exp, str) else len(exp) // 2))
        self.expect.append(["dump", self.pm[r], tag, exp if isinstance(exp, str) else bytes(exp).hex(), why])

    def init(self, how="plain", level=0):
        for r in range(self.np):
            self.op(r, "mpi_init %d" % level)
            self.op(r, "init " + how)
        self.inited = True

    def finish(self, dumps=True, free=True):
        if dumps:
            for a in self.allocs:
                if a.live:
                    self.dump_alloc(a, "final contents")
        if free:
            for (r, i), b in sorted(self.live_lb.items()):
                self.op(r, "%s %d" % ("lfree" if b.armci else "lbfree", i))
        for r in range(self.np):
            self.quiet(r)
        self.allop("fini")
        self.allop("mpi_fini")

    def uses(self, z):
        """may the thread being generated use the zone?"""
        return self.cur_th is None or z.th == self.cur_th or z.th < 0 < self.cur_th

    def dump_alloc(self, a, why):
        for r in a.members:
            m = a.mem.get(r)
            if m:
                t = a.tok(r, 0)
                self.op(r, "abegin " + t)
                if a.pieces.get(r):
                    for x, y in a.spans(r, 0, len(m)):
                        self.dump(r, a.tok(r, x), m[x:y], "%s of allocation %d on process %d from byte %d on" % (why, a.id, r, a.real(r, x)))
                    self.op(r, "aend " + t)
                    continue
                if self.cur_th is not None and any(z.th for z in a.zones[r]):
                    h = ["%02x" % x for x in m]
                    for z in a.zones[r]:
                        if z.th:     # in use by other threads
                            h[z.off:z.off + z.len] = ["??"] * z.len
                    m = "".join(h)
                self.dump(r, t, m, "%s of allocation %d on process %d" % (why, a.id, r))
                self.op(r, "aend " + t)

    def text(self):
        out = ["np %d" % len(self.lines), "seed %d" % self.seed]
        out += ["cfg %s %d" % kv for kv in sorted(self.cfg.items())]
        out += ["env %s %s" % kv for kv in sorted(self.env.items())]
        for r in range(len(self.lines)):
            out.append("rank %d" % r)
            out += self.lines[r]
        return "\n".join(out) + "\n"

    def case(self, nontrivial=None, note=""):
        return Case(self.text(), self.expect, self.build, self.labels,
                    self.nontrivial if nontrivial is None else nontrivial, note)

    # ------------------------------------------------------------------ memory
    def group(self, members, gid=None):
        """collective creation over everybody from the world group"""
        gid = len(self.groups) if gid is None else gid
        self.groups[gid] = list(members)
        nc = truth(self.env.get("ARMCI_NONCOLLECTIVE_GROUPS"))
        self.allop("gcreate %d %s" % (gid, ints(members)), members if nc else None)
        return gid

    def alloc(self, sizes, gid=None, zones=None, fill=True, verb=None):
        """sizes: {rank: bytes} for members"""
        verb = verb or ("malloc" if gid is None else "gmalloc")
        a = Alloc(len(self.allocs), self.groups[gid] if gid is not None else list(range(self.np)), gid)
        for r in a.members:
            zs = (zones or {}).get(r)
            if self.stretch and zs and sizes[r] > 0:
                a.pieces[r] = self.stretch(r, zs)
            real = a.rsize[r] = max([a.real(r, x) + y - x for x, y in a.spans(r, 0, sizes[r])] or [sizes[r]])
            a.at[r] = self.op(r, "%s %d %d%s" % (verb, a.id, real, "" if gid is None else " %d" % gid))
            if sizes[r] > 0:
                a.mem[r] = bytearray(sizes[r])
            a.zones[r] = (zones or {}).get(r) or ([Zone(0, sizes[r], RAW)] if sizes[r] else [])
        self.allocs.append(a)
        if fill:
            for r in a.members:
                if sizes[r] > 0:
                    for z in a.zones[r]:
                        a.mem[r][z.off:z.off + z.len] = pat(z.type, self.newsalt(), z.len)
                    self.store(r, Ref(a, r, 0), bytes(a.mem[r]))
        return a

    def store(self, r, ref, data):
        """direct store by the owner (or into a private buffer)"""
        if not data:
            return
        ref.mem[ref.off:ref.off + len(data)] = data
        sh = not isinstance(ref.sp, LB)
        if sh:
            self.op(r, "abegin " + ref.tok())
        if sh and ref.sp.pieces.get(r):
            for x, y in ref.sp.spans(r, ref.off, len(data)):
                self.op(r, "fill %s %s" % (ref.sp.tok(r, x), bytes(data[x - ref.off:y - ref.off]).hex()))
        else:
            self.op(r, "fill %s %s" % (ref.tok(), bytes(data).hex()))
        if sh:
            self.op(r, "aend " + ref.tok())

    def lbuf(self, r, n, data=None, armci=False):
        if self.free_lb[r]:
            lid = self.free_lb[r].pop()
        else:
            lid = self.nlb[r]
            self.nlb[r] += 1
        b = LB(lid, r, n)
        b.armci = armci
        self.live_lb[(r, lid)] = b
        self.op(r, "%s %d %d" % ("lmalloc" if armci else "lb", lid, n))
        if n:
            data = pat(RAW, self.newsalt(), n) if data is None else data
            b.mem[:] = data
            self.op(r, "fill %s %s" % (b.tok(0), bytes(data).hex()))
        return b

    def lbfree(self, b):
        self.op(b.rank, "%s %d" % ("lfree" if b.armci else "lbfree", b.id))
        del self.live_lb[(b.rank, b.id)]
        self.free_lb[b.rank].append(b.id)

    # ------------------------------------------------------------ dependencies
    # accesses: list of (key, lo, hi, kind) kind in r w or ("a", type)
    @staticmethod
    def _conf(x, y):
        if x[0] != y[0] or x[1] >= y[2] or y[1] >= x[2]:
            return False
        if x[3] == "r" and y[3] == "r":
            return False
        if isinstance(x[3], tuple) and x[3] == y[3]:
            return False
        return True

    def _confs(self, A, B):
        if len(A) * len(B) < 200:
            return any(self._conf(a, b) for a in A for b in B)
        B = sorted(B, key=lambda x: x[1])
        los = [x[1] for x in B]
        long = max(x[2] - x[1] for x in B)
        for a in A:
            i = bisect_left(los, a[1] - long)
            while i < len(B) and los[i] < a[2]:
                if self._conf(a, B[i]):
                    return True
                i += 1
        return False

    def settle(self, r, acc):
        """make earlier operations of r that conflict with the accesses complete"""
        for p in list(self.pend[r]):
            if p in self.pend[r] and self._confs(p["acc"], acc):
                self.complete(r, p)
        if self.weak:
            for t in sorted({u[0] for u in self.unf[r]}):
                if self._confs([u[1] for u in self.unf[r] if u[0] == t], acc):
                    self.op(r, "fence %d" % t)
                    self.unf[r] = [x for x in self.unf[r] if x[0] != t]

    def complete(self, r, p, how=None):
        h = p["h"]
        d = self.d
        if h is None:
            how = how or d.choice(["waitall", "waitproc"])
            self.op(r, "waitall" if how == "waitall" else "waitproc %d" % p["proc"])
            gone = [q for q in self.pend[r] if how == "waitall" or q["proc"] == p["proc"]]
            if how == "waitall":
                gone = list(self.pend[r])
        else:
            how = how or d.choice(["wait", "testloop"])
            self.op(r, "%s h%d" % (how, h))
            self.unwaited[r].discard(h)
            gone = [q for q in self.pend[r] if q["h"] == h]
        self.labels.add("complete:" + how)
        for q in gone:
            self.pend[r].remove(q)
        for q in gone:
            for f in q["after"]:
                f()

    def complete_all(self, r):
        while self.pend[r]:
            self.complete(r, self.pend[r][0])

    # --------------------------------------------------------------- data ops
    def transfer(self, r, kind, proc, pairs, dt=None, scale=None):
        """apply to the model; pairs: [(srcRef, dstRef, n)] ; returns False if inexact"""
        if kind == "acc":
            save = []
            try:
                for s, t, n in pairs:
                    if n:
                        old = bytes(t.mem[t.off:t.off + n])
                        new = acc_bytes(dt, old, bytes(s.mem[s.off:s.off + n]), scale)
                        save.append((t, t.off, old))
                        t.mem[t.off:t.off + n] = new
            except Inexact:
                for t, o, old in reversed(save):
                    t.mem[o:o + len(old)] = old
                return False
            return True
        data = [bytes(s.mem[s.off:s.off + n]) for s, t, n in pairs]
        for (s, t, n), b in zip(pairs, data):
            t.mem[t.off:t.off + n] = b
        return True

    def accesses(self, kind, pairs, dt=None):
        out = []
        for s, t, n in pairs:
            if n:
                out.append((s.key(), s.off, s.off + n, "r"))
                out.append((t.key(), t.off, t.off + n, ("a", dt) if kind == "acc" else "w"))
        return out

    def issue(self, r, kind, proc, pairs, line, dt=None, scale=None, nb=None, after=(), dumps=()):
        """line: function(handle token or None) -> program line.  nb: None (blocking), -1
        implicit handle, or handle id.  Returns False if the operation was dropped."""
        acc = self.accesses(kind, pairs, dt)
        save = None
        self.settle(r, acc)
        if not self.transfer(r, kind, proc, pairs, dt, scale):
            return False
        self.op(r, self.prefix() + line(None if nb is None else ("n" if nb < 0 else "h%d" % nb)))
        self.nops += 1
        if self.weak and kind != "get":
            self.unf[r] += [(proc, a) for a in acc if a[3] != "r"]
        if nb is not None:
            if nb >= 0:
                self.unwaited[r].add(nb)
            self.pend[r].append({"h": None if nb < 0 else nb, "acc": acc, "proc": proc, "after": list(after), "get": kind == "get"})
        else:
            for f in after:
                f()
        return True

    def quiet(self, r, h=None):
        """wait on handles whose operations were completed without them"""
        for x in sorted(self.unwaited[r]) if h is None else [h] if h in self.unwaited[r] else []:
            self.op(r, "wait h%d" % x)
            self.unwaited[r].discard(x)

    def handle(self, r):
        h = self.nh[r]
        self.nh[r] += 1
        self.op(r, "hinit %d" % h)
        return h

    # ------------------------------------------------------------------ phases
    def sync(self, how="barrier"):
        for r in range(self.np):
            self.complete_all(r)
        if how == "barrier":
            self.allop("barrier")
        elif how == "afence":
            self.allop("afence")
            self.allop("mbar")
        elif how == "afence_sync":
            self.allop("afence")
            self.allop("sync" if len(self.lines) == self.np else "mbar")
        elif how == "p2p":
            self.allop("afence")
            hub = self.d.int(0, self.np - 1)
            rest = [r for r in range(self.np) if r != hub]
            snd, rcv = self.d.choice([("tok %d 77", "rtok %d 77"), ("msgtok %d", "msgrtok %d")])
            q = self.pm if snd[0] == "t" else range(self.np)
            for r in rest:
                self.op(r, snd % q[hub])
                self.op(hub, rcv % q[r])
            for r in rest:
                self.op(hub, snd % q[r])
                self.op(r, rcv % q[hub])
        for r in range(self.np):
            self.unf[r] = []


# ------------------------------------------------------------------- generators
def strides_of(d, unit, n0, counts, room, messy=True):
    """strides for the given counts so that blocks are disjoint and the footprint is
    at most room bytes; returns (strides, footprint) or None"""
    ext = n0
    st = []
    # minimum extents still to come
    for i, c in enumerate(counts):
        rest = 1
        for c2 in counts[i + 1:]:
            rest *= c2
        # choose padding so that everything still fits when the outer levels are tight
        base = ext if ext % unit == 0 else ext + unit - ext % unit
        tight = base * c * rest
        slack = (room - tight) // max(1, c * rest)
        pad = 0
        if slack >= unit:
            pad = d.weighted([(3, 0), (2, 1), (2, -1)])
            pad = 0 if pad == 0 else (unit * d.int(1, min(slack // unit, 3)) if pad == 1 else unit * d.int(1, slack // unit))
        s = base + pad
        st.append(s)
        ext = s * (c - 1) + ext
    return st, ext


def shape(d, room, unit, maxlv=4, sticky=False, wide=False):
    """(count0, counts) with product at most room bytes; unit = element size"""
    units = room // unit
    lv = d.weighted([(3, 1), (3, 2), (2, 0), (2, 3), (1, 4), (1, 5), (1, 7)])
    lv = min(lv, maxlv)
    if maxlv > 7 and d.bool(0.06):
        lv = d.int(8, maxlv)
    k0 = d.int(1, max(1, min(units, 12)))
    if d.bool(0.1):
        k0 = d.int(1, max(1, units))
    left = units // k0
    if wide:
        left = min(left, 1500)
    counts = []
    for _ in range(lv):
        c = d.int(1, max(1, min(left, 5)))
        if wide and d.bool(0.6):
            c = d.int(1, max(1, left))
        counts.append(c)
        left //= c
    return k0 * unit, counts


def blocks(n0, counts, strides):
    offs = [0]
    for c, s in zip(counts, strides):
        offs = [o + i * s for i in range(c) for o in offs]
    # loop order: level 0 fastest
    return offs


def wide_zones(d, types, most):
    zs, off = [], 0
    for _ in range(d.weighted([(2, 1), (1, 2)])):
        t = d.choice(types)
        e = 1 if t == RAW else ESZ[t]
        off += -off % e
        b = d.int(11, most)
        ln = max(1, d.choice([(1 << b) // e, ((1 << b) + d.int(0, 1 << b)) // e, (1 << b) // e + 1]))
        zs.append(Zone(off, ln * e, t))
        off += ln * e
    return zs, off


def zones_for(d, total_hint, types, small=False):
    """list of zones covering a random size"""
    zs, off = [], 0
    n = d.weighted([(3, 1), (3, 2), (2, 3), (1, 4)])
    for _ in range(n):
        t = d.choice(types)
        e = 1 if t == RAW else ESZ[t]
        if t != RAW and off % e:
            off += e - off % e
        k = 0 if small else d.weighted([(4, 0), (3, 1), (2, 2), (1, 3)] + ([(6, 4)] if total_hint else []))
        lo, hi = [(1, 16), (8, 64), (32, 200), (100, 900), (900, 9000)][k]
        ln = d.int(lo, hi)
        ln = max(1, ln // e) * e if t != RAW else ln
        zs.append(Zone(off, ln, t))
        off += ln
    return zs, off
