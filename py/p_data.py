"""Data-movement properties: C01-C05, C07, C09, C17, C21, C22."""
from ops import *
from ops import _prod
from pbt import Group

V13 = [{"variant": 1}, {"variant": 2}, {"variant": 3}]
V13M = V13 + [{"variant": v, "cov": "mem"} for v in (1, 2, 3)]
NPS = ((3, 2), (4, 3), (2, 4), (1, 1), (1, 5))


class Prop:
    def __init__(self, pid, groups, rule, builds=None, assumptions=()):
        self.id, self.groups, self.rule, self.builds = pid, groups, rule, builds or V13
        self.assumptions = ["the simulated MPI (sim/simmpi.c) permits every completion order MPI-3.1 permits and no other",
                            "1 to 8 processes, mostly 2 to 4; accessed parts of an allocation mostly below 10 kB (up to 4 MB in wide groups; spread over up to 7 GB in huge-window groups)"] + list(assumptions)


REG = {}


def reg(p):
    REG[p.id] = p


# ---------------------------------------------------------------- C01
class O1(Opt):
    kinds = [(1, "put"), (1, "get")]
    forms = [(1, "c")]
    nb = 0.0
    shared_local = 0.35
    nallocs = (1, 5)
    types = [RAW, RAW, INT, DBL]
    ops = (1, 7)
    groups = 0.35


class O1b(O1):
    nallocs = (1, 2)
    big = True
    ops = (1, 3)


def c01(d):
    return phase_case(d, O1(), NPS, tuning=0.35).case()


def c01big(d):
    return phase_case(d, O1b(), NPS, tuning=0.35).case()


class O1h(O1):
    huge = True
    dla = 0.1
    flag = 0.05
    nallocs = (1, 2)
    forms = [(2, "c"), (1, "v")]
    ops = (1, 5)


def c01huge(d):
    return phase_case(d, O1h(), ((3, 2), (2, 3)), tuning=0.35).case()


class O1w(O1):
    wide = 20
    nallocs = (1, 2)
    ops = (1, 3)
    phases = (1, 2)
    types = [RAW, DBL]


def c01wide(d):
    o = O1w()
    if not d.bool(0.1):
        o.wide = 16
    return phase_case(d, o, NPS, tuning=0.35).case()


reg(Prop("C01", [Group("wide", c01wide, 400), Group("contiguous", c01, 6000), Group("large", c01big, 800), Group("huge-window", c01huge, 600)],
         "a generated race-free multi-phase program of blocking contiguous puts and gets over 1-5 allocations (world and group, equal or "
         "colliding addresses) by 1-5 processes, run under a drawn schedule, transport and tuning; every byte of every allocation, every get "
         "destination and a sample of sources are compared with a byte-array model. Non-trivial: at least one transfer was issued; distinct by program text."))


# ---------------------------------------------------------------- C02
class O2(Opt):
    forms = [(1, "s")]
    maxlv = 12
    nb = 0.35
    nallocs = (1, 2)
    odd_unit = True


class O2raw(O2):
    types = [RAW]
    kinds = [(1, "put"), (1, "get")]


def c02(d):
    return phase_case(d, O2(), NPS, tuning=0.7).case()


def c02deep(d):
    return phase_case(d, O2raw(), tuning=0.7).case()


class O2h(Opt):
    forms = [(1, "h")]
    nb = 0.35
    nallocs = (1, 2)


def c02huge(d):
    return huge_strides(d, O2h()).case()


class O2w(O2):
    wide = 15
    ops = (1, 3)
    phases = (1, 2)


def c02wide(d):
    return phase_case(d, O2w(), NPS, tuning=0.7).case()


reg(Prop("C02", [Group("wide", c02wide, 900), Group("huge-strides", c02huge, 600), Group("typed", c02, 4500), Group("bytes", c02deep, 3000)],
         "a generated race-free program of strided puts, gets and accumulates (0-12 stride levels, padded, permuted, non-multiple and count-one strides, "
         "different on the two sides, aliased sources), blocking and non-blocking, under every strided/vector method; result compared byte for byte, gaps "
         "included, with the loop of contiguous transfers applied to a byte-array model. Non-trivial: at least one strided transfer issued.",
         assumptions=["counts are positive and destination blocks do not overlap"]))


# ---------------------------------------------------------------- C03
class O3(Opt):
    forms = [(1, "v")]
    nb = 0.35


def c03(d):
    return phase_case(d, O3(), NPS, tuning=0.7, checks=0.45).case()


class O3r(O3):
    types = [RAW]
    nallocs = (1, 4)


def c03raw(d):
    return phase_case(d, O3r(), NPS, tuning=0.9, checks=0.45).case()


class O3h(O3):
    huge = True
    nallocs = (1, 2)
    ops = (1, 4)


def c03huge(d):
    return phase_case(d, O3h(), ((3, 2), (2, 3)), tuning=0.5, checks=0.45).case()


class O3w(O3):
    wide = 15
    nallocs = (1, 2)
    ops = (1, 3)
    phases = (1, 2)


def c03wide(d):
    return phase_case(d, O3w(), NPS, tuning=0.7, checks=0.2).case()


def digest(b):
    """what the runner's hash operation logs"""
    u = numpy.frombuffer(bytes(b), dtype=numpy.uint8).astype(numpy.uint64)
    k = (numpy.arange(len(u), dtype=numpy.uint64) * numpy.uint64(2654435761) + numpy.uint64(12345)) & numpy.uint64(0xffffffff)
    return ((int((u * k).sum(dtype=numpy.uint64)) + len(u)) & (1 << 64) - 1).to_bytes(8, "little").hex()


def c03many(d):
    """one call with up to hundreds of thousands of segments"""
    w = base_world(d, ((3, 2), (1, 1), (1, 3)), ((1, 1), (1, 2), (4, 3)))
    method = d.weighted([(5, "DIRECT"), (2, "AUTO"), (1, "BATCHED"), (1, "CONSRV")])
    w.env["ARMCI_IOV_METHOD"] = method
    w.cfg["big"] = 2
    kind = d.weighted([(2, "put"), (2, "get"), (1, "acc")])
    n = d.choice([d.int(500, 4000), 4096 + d.int(-1, 1)])
    if method in ("DIRECT", "AUTO") and w.build["variant"] == 3 and d.bool(0.7):
        n = d.choice([65536 + d.int(-1, 1), d.int(66000, 200000), d.int(430000, 600000), d.int(430000, 600000)])
        w.labels.add("segments>400000" if n > 400000 else "segments>65000")
    elif d.bool(0.3):
        w.env["ARMCI_IOV_DTYPE_CHUNK"] = str(d.choice([1, 100, 1000, n - 1, n, n + 1]))
    if d.bool(0.3):
        w.env["ARMCI_IOV_CHECKS"] = "1"
    if d.bool(0.3):
        w.env["ARMCI_SHR_BUF_METHOD"] = "COPY"
    e = d.weighted([(3, 4), (1, 8), (1, 12)])           # bytes of a segment: whole ints
    rs, ls = e * d.int(1, 2), e * d.int(1, 2)
    rn, ln = rs * (n - 1) + e + 4 * d.int(0, 2), ls * (n - 1) + e + 4 * d.int(0, 2)
    t = d.int(0, w.np - 1)
    r = d.int(0, w.np - 1)
    shared = d.bool(0.3) and r != t and kind != "acc"
    sizes = {q: 0 for q in range(w.np)}
    sizes[t] = rn
    if shared:
        sizes[r] = ln
    w.init()
    for q in range(w.np):
        w.op(q, "malloc 0 %d" % sizes[q])

    def ints_of(nb, salt):
        i = numpy.arange(nb // 4, dtype=numpy.int64)
        return ((salt * 31 + i * 17) % 1999 - 999).astype(numpy.int32)
    rem, loc = ints_of(rn, 1), ints_of(ln, 2)
    w.op(t, "abegin a0.%d+0" % t)
    w.op(t, "fillint a0.%d+0 %d 1" % (t, rn // 4))
    w.op(t, "aend a0.%d+0" % t)
    R = "a0.%d+" % t
    L = "a0.%d+" % r if shared else "l0+"
    if shared:
        w.op(r, "abegin %s0" % L)
    else:
        w.op(r, "lb 0 %d" % ln)
    w.op(r, "fillint %s0 %d 2" % (L, ln // 4))
    if shared:
        w.op(r, "aend %s0" % L)
    w.allop("barrier")
    r0, l0 = d.int(0, (rn - rs * (n - 1) - e) // 4) * 4, d.int(0, (ln - ls * (n - 1) - e) // 4) * 4
    back = d.bool(0.3)          # from the last segment to the first
    ra, la, rd, ld = (r0 + rs * (n - 1), l0 + ls * (n - 1), -rs, -ls) if back else (r0, l0, rs, ls)
    if kind == "get":
        prog = "%s%d %d %s%d %d" % (R, ra, rd, L, la, ld)
    else:
        prog = "%s%d %d %s%d %d" % (L, la, ld, R, ra, rd)
    sc = d.choice([1, 3]) if kind == "acc" else None
    pre = "%d %s " % (INT, scale_bytes(INT, sc).hex()) if kind == "acc" else ""
    line = "%s%d 1 %d %d ~ %s" % (pre, t, e, n, prog)
    if d.bool(0.3):
        h = w.handle(r)
        w.op(r, "nb%sv h%d %s" % (kind, h, line))
        w.op(r, "wait h%d" % h)
    else:
        w.op(r, "%sv %s" % (kind, line))
    if kind != "get" and d.bool(0.3):
        w.op(r, "fence %d" % t)
    w.allop("barrier")
    m = e // 4
    idx = numpy.arange(n, dtype=numpy.int64)[:, None]
    ri = ((r0 // 4 + idx * (rs // 4)) + numpy.arange(m)).ravel()
    li = ((l0 // 4 + idx * (ls // 4)) + numpy.arange(m)).ravel()
    if kind == "get":
        loc[li] = rem[ri]
    elif kind == "put":
        rem[ri] = loc[li]
    else:
        rem[ri] += sc * loc[li]
    for q, tok, x, what in ((t, R, rem, "target"), (r, L, loc, "local side")):
        if tok[0] == "a":
            w.op(q, "abegin %s0" % tok)
        w.nd += 1
        w.op(q, "hash d%d %s0 %d" % (w.nd, tok, x.nbytes))
        w.expect.append(["dump", w.pm[q], "d%d" % w.nd, digest(x), "digest of the %s of %sv with %d segments" % (what, kind, n)])
        if tok[0] == "a":
            w.op(q, "aend %s0" % tok)
    if not shared:
        w.op(r, "lbfree 0")
    w.allop("barrier")
    w.allop("fini")
    w.allop("mpi_fini")
    w.labels |= {"op:%sv" % kind, "IOV_METHOD=" + method}
    w.nops, w.nontrivial = 1, True
    return w.case()


reg(Prop("C03", [Group("many-segments", c03many, 60), Group("wide", c03wide, 900), Group("huge-window", c03huge, 600), Group("typed", c03, 4500), Group("bytes", c03raw, 3000)],
         "a generated race-free program of vector puts, gets and accumulates (0-4 descriptors, 0-40, in the wide group up to 1000, in the group of many up to 600000, segments each, empty and zero-byte descriptors, any order, "
         "adjacent, aliased sources; with segment checks also several allocations and overlapping accumulate segments), under every vector method, batch limit and "
         "datatype chunk; compared with the segment-by-segment model. Non-trivial: at least one vector transfer issued.",
         assumptions=["without segment checks, segments of a call lie in one allocation and do not overlap at the destination",
                      "segments are whole elements and, for the direct method, whole elements apart"]))


# ---------------------------------------------------------------- C04
class O4(Opt):
    kinds = [(1, "acc")]
    types = [INT, LONG, FLT, DBL, CPL, DCP]
    nb = 0.3
    local_dump = 1.0
    shared_local = 0.25


def c04(d):
    return phase_case(d, O4(), NPS, tuning=0.5, checks=0.2).case()


class O4v(O4):
    forms = [(1, "c"), (2, "s"), (3, "v")]
    ops = (1, 3)
    phases = (1, 1)
    nb = 0.6


def c04v(d):
    return phase_case(d, O4v(), tuning=0.7, checks=0.2).case()


class O4h(O4):
    huge = True
    nallocs = (1, 2)


class O4hs(O4):
    forms = [(1, "h")]
    nallocs = (1, 2)


def c04huge(d):
    if d.bool():
        return huge_strides(d, O4hs()).case()
    return phase_case(d, O4h(), ((3, 2), (2, 3)), tuning=0.5, checks=0.2).case()


class O4w(O4):
    wide = 16
    nallocs = (1, 2)
    ops = (1, 3)
    phases = (1, 2)


def c04wide(d):
    o = O4w()
    if d.bool(0.2):
        o.wide, o.forms = 18, [(1, "c")]
    return phase_case(d, o, NPS, tuning=0.5).case()


reg(Prop("C04", [Group("wide", c04wide, 300), Group("huge-window", c04huge, 500), Group("all-forms", c04, 4500), Group("vector-nb", c04v, 3000)],
         "a generated race-free program of accumulates of all six element types in all forms with scales drawn from zero, one, minus one, larger, "
         "imaginary and mixed complex values; target compared with exact arithmetic on the model, source compared after the call. Values are chosen so that "
         "the exact result is representable. Non-trivial: at least one accumulate issued.",
         assumptions=["operands and results exactly representable, so no rounding question arises"]))


# ---------------------------------------------------------------- C05
class O5(Opt):
    kinds = [(1, "acc")]
    types = [INT, LONG, FLT, DBL, CPL, DCP]
    role_w = [(1, "acc")]
    nallocs = (1, 2)
    small = True
    ops = (1, 5)
    phases = (1, 2)
    groups = 0.15
    local_dump = 0.1
    nb = 0.4


def c05(d):
    w = phase_case(d, O5(), ((3, 2), (3, 3), (2, 4)), tuning=0.5, checks=0.3)
    if d.bool(0.5):
        preempt(d, w)
    return w.case()


class O5hot(O5):
    hot, groups, nb, nallocs, ident, ops, phases = True, 0.1, 0.25, (1, 1), 0.5, (1, 6), (1, 1)
    forms = [(3, "c"), (1, "s"), (1, "v")]
    local_dump = scribble = prefix_p = 0.05


def c05hot(d):
    o = O5hot()
    o.types = [d.choice(O5.types)]
    w = phase_case(d, o, ((3, 2), (2, 3)), tuning=0.5)
    preempt(d, w)
    return w.case()


def preempt(d, w):
    """the library's own loads and stores of shared memory become switch points"""
    w.build = dict(w.build, cov="mem")
    w.cfg["mempts"] = d.choice([100, 500, 1000])
    w.labels.add("preempted-loads-and-stores")


reg(Prop("C05", [Group("concurrent", c05, 6000), Group("hot-spot", c05hot, 4000)],
         "2-4 processes concurrently accumulate (all forms, blocking or not, one element type per zone) into the same small zones with no synchronisation, under a "
         "drawn schedule and delays, in half of the cases also preempted between the library's own loads and stores of shared memory; final contents must be initial value plus all contributions exactly. Non-trivial: at least one accumulate issued.",
         builds=V13M))


# ---------------------------------------------------------------- C07
class O7(Opt):
    nb = 0.92
    scribble = 1.0
    shared_local = 0.12
    local_dump = 0.25
    ops = (2, 9)
    phases = (1, 2)
    scalar = 0.06
    handles = True


def c07(d):
    w = phase_case(d, O7(), NPS, tuning=0.45, checks=0.2)
    return w.case()


class O7h(O7):
    huge = True
    nallocs = (1, 2)


class O7hs(O7):
    scalar = 0.0
    forms = [(1, "h")]
    nallocs = (1, 2)


def c07huge(d):
    if d.bool(0.4):
        return huge_strides(d, O7hs()).case()
    return phase_case(d, O7h(), ((3, 2), (2, 3)), tuning=0.45, checks=0.2).case()


class O7b(Opt):
    nb = 0.1
    scribble = 1.0
    kinds = [(2, "put"), (1, "get"), (2, "acc")]
    local_dump = 0.1
    types = [RAW, INT, DBL, DCP]
    role_w = [(6, "x"), (1, "acc")]


def c07b(d):
    return phase_case(d, O7b(), NPS, tuning=0.5, checks=0.2).case()


class O7w(O7):
    wide = 16
    nallocs = (1, 2)
    ops = (1, 5)


def c07wide(d):
    return phase_case(d, O7w(), NPS, tuning=0.45).case()


class O7m(O7w):
    manyreq = True
    nb = 1.0
    scribble = 0.0
    forms = [(1, "v")]
    types = [RAW, RAW, INT, DBL]
    ops = (1, 4)


def c07many(d):
    return phase_case(d, O7m(), ((3, 2), (2, 3)), tuning=0.2).case()


reg(Prop("C07", [Group("many-requests", c07many, 300), Group("wide", c07wide, 500), Group("nonblocking", c07, 5500), Group("blocking-reuse", c07b, 2000), Group("huge-window", c07huge, 500)],
         "a generated race-free program of mostly non-blocking operations on fresh, reused, aggregate and implicit handles, completed by wait, test loops, wait-proc or "
         "wait-all; immediately after local completion put/accumulate sources are overwritten or freed and get destinations compared, under schedules in which the MPI layer reads "
         "sources and delivers results as late as allowed. Non-trivial: at least one operation issued."))


# ---------------------------------------------------------------- C09
class O9(Opt):
    nb = 0.0
    small = True
    nallocs = (1, 2)
    ops = (4, 14)
    phases = (1, 2)
    scalar = 0.25
    flag = 0.06
    role_w = [(1, "x")]
    shared_local = 0.1
    local_dump = 0.05
    groups = 0.15


def c09(d):
    w = base_world(d, NPS, weak_ok=False)
    tune(d, w, 0.4)
    if d.bool(0.45):
        w.cfg["transport"] = 2
        w.labels.add("transport:weak-ordered-by-config")
        w.labels.discard("transport:fifo")
        w.labels.discard("transport:eager")
        if d.bool():
            w.env["ARMCI_NO_FLUSH_LOCAL"] = "1"
        else:
            w.env["ARMCI_RMA_ATOMICITY"] = "1"
    o = O9()
    w.init()
    make_allocs(d, w, o)
    w.allop("barrier")
    run_phases(d, w, o)
    w.finish()
    w.nontrivial = w.nops > 3
    return w.case()


reg(Prop("C09", [Group("program-order", c09, 6000)],
         "sequences of up to 28 blocking operations of every form per process over a few small, heavily overlapping zones of one target, on an in-order transport in the default "
         "configuration and on a reordering transport with NO_FLUSH_LOCAL or RMA_ATOMICITY; every fetched value and the final contents must be those of in-order execution. "
         "Non-trivial: more than three operations."))


# ---------------------------------------------------------------- C17
GARBAGE = ["", "bogus", "-1", "-7", "99999999999999999999", "0x10", "1e3", "tRuE", "n", "F", " 1", "0"]


def wild_env(d, w):
    """any documented setting, any value class"""
    e = w.env

    def b(k, p=0.35):
        if d.bool(p):
            e[k] = d.choice(["1", "0", "TRUE", "FALSE", "true", "false", "Yes", "No", "y", "n", "T", "F"])
    e["ARMCI_IOV_METHOD"] = d.choice(["AUTO", "CONSRV", "BATCHED", "DIRECT", "bogus", "auto", "batched", "Direct", "consrv"])
    e["ARMCI_STRIDED_METHOD"] = d.choice(["IOV", "DIRECT", "iov", "direct", "xx"])
    if d.bool():
        e["ARMCI_IOV_BATCHED_LIMIT"] = d.choice(["0", "1", "2", "3", "7", "1000000", "-3", "zzz", "99999999999"])
    if d.bool():
        e["ARMCI_IOV_DTYPE_CHUNK"] = d.choice(["0", "1", "2", "3", "5", "100000", "-3", "zzz", "99999999999"])
    if d.bool():
        e["ARMCI_SHR_BUF_METHOD"] = d.choice(["NOGUARD", "COPY", "what"])
    for k in ("ARMCI_USE_WIN_ALLOCATE", "ARMCI_RMA_ATOMICITY", "ARMCI_NO_FLUSH_LOCAL", "ARMCI_CACHE_RANK_TRANSLATION", "ARMCI_RMA_NOCHECK",
              "ARMCI_USE_ALLOC_SHM", "ARMCI_DISABLE_SHM_ACC", "ARMCI_USE_SAME_OP", "ARMCI_USE_REQUEST_ATOMICS", "ARMCI_FLUSH_REQUEST_ATOMICS",
              "ARMCI_MSG_BARRIER_SYNCS", "ARMCI_DEBUG_ALLOC", "ARMCI_NONCOLLECTIVE_GROUPS", "ARMCI_IOV_CHECKS", "ARMCI_DEBUG_FLUSH_BARRIERS"):
        b(k)
    if d.bool(0.3):
        e["ARMCI_RMA_ORDERING"] = d.choice(["none", "rar", "rar,raw", "rar,raw,war,waw", "raw", "rubbish"])
    if d.bool(0.3):
        e["ARMCI_ACCUMULATE_GRANULARITY"] = d.choice(["1", "100", "1048576", "-5", "0", "qq"])
    if d.bool(0.2):
        e["ARMCI_SHM_LIMIT"] = d.choice(["0", "1", "4096", "1M", "-2", "xx", "1g"])
    if d.bool(0.2):
        e["ARMCI_EXPLICIT_NB_PROGRESS"] = d.choice(["0", "1"])
    if d.bool(0.15):
        e["ARMCI_VERBOSE"] = d.choice(["0", "1", "2"])
    for k in sorted(e):
        w.labels.add("set:" + k[6:])
    if any(v in GARBAGE + ["bogus", "xx", "zzz", "what", "rubbish", "qq"] for v in e.values()):
        w.labels.add("malformed-values")
    libversion(d, w)


def cint(s, dflt):
    """atol clamped to int"""
    import re
    if s is None:
        return dflt
    m = re.match(r"[ \t]*([+-]?\d+)", s)
    v = int(m.group(1)) if m else 0
    return max(-2147483648, min(2147483647, v))


def expected_settings(env, variant):
    def tb(k, dflt):
        v = env.get("ARMCI_" + k)
        return "TRUE" if (dflt if v is None else truth(v)) else "FALSE"
    w = {}
    iov = env.get("ARMCI_IOV_METHOD")
    w["IOV_METHOD"] = iov if variant == 3 and iov in ("AUTO", "CONSRV", "BATCHED", "DIRECT") else "BATCHED"
    st = env.get("ARMCI_STRIDED_METHOD")
    w["STRIDED_METHOD"] = st if st in ("IOV", "DIRECT") else ("IOV" if variant == 1 else "DIRECT")
    if w["IOV_METHOD"] in ("BATCHED", "AUTO"):
        v = cint(env.get("ARMCI_IOV_BATCHED_LIMIT"), 0)
        w["IOV_BATCHED_LIMIT"] = str(v) if v > 0 else "UNLIMITED"
    if w["IOV_METHOD"] in ("DIRECT", "AUTO"):
        v = cint(env.get("ARMCI_IOV_DTYPE_CHUNK"), 256)
        w["IOV_DTYPE_CHUNK"] = str(v) if v > 0 else "UNLIMITED"
    w["SHR_BUF_METHOD"] = "COPY" if env.get("ARMCI_SHR_BUF_METHOD") == "COPY" else "NOGUARD"
    for k, dflt in (("RMA_ATOMICITY", 0), ("NO_FLUSH_LOCAL", 0), ("RMA_NOCHECK", 1), ("MSG_BARRIER_SYNCS", 0), ("USE_REQUEST_ATOMICS", variant != 1),
                    ("FLUSH_REQUEST_ATOMICS", 0), ("USE_ALLOC_SHM", 1), ("DISABLE_SHM_ACC", 0), ("USE_SAME_OP", 0), ("IOV_CHECKS", 0),
                    ("NONCOLLECTIVE_GROUPS", 0), ("CACHE_RANK_TRANSLATION", 1), ("DEBUG_ALLOC", 0)):
        w[k] = tb(k, dflt)
    v = env.get("ARMCI_EXPLICIT_NB_PROGRESS")
    w["EXPLICIT_NB_PROGRESS"] = "ENABLED" if v is None or truth(v) else "DISABLED"
    g = cint(env.get("ARMCI_ACCUMULATE_GRANULARITY"), 1048576)
    w["ACCUMULATE_GRANULARITY"] = str(g if g >= 0 else 1048576)
    v = env.get("ARMCI_USE_WIN_ALLOCATE")
    w["WINDOW type used"] = "ALLOCATE" if v is None or truth(v) else "CREATE"
    o = env.get("ARMCI_RMA_ORDERING")
    if o is None or len(o) < 20:
        w["RMA_ORDERING"] = (o if o is not None else "rar,raw,war,waw").strip()
    return w


class O17(Opt):
    ops = (1, 4)
    scalar = 0.1
    flag = 0.04
    nb = 0.35


def c17(d):
    w = base_world(d, NPS)
    wild_env(d, w)
    o = O17()
    if truth(w.env.get("ARMCI_IOV_CHECKS")):
        o.overlap_acc = o.multi_alloc = True
    w.init()
    make_allocs(d, w, o)
    w.allop("barrier")
    run_phases(d, w, o)
    w.finish()
    w.nontrivial = w.nops > 0
    return w.case()


def c17parse(d):
    w = base_world(d, ((3, 1), (2, 2)))
    wild_env(d, w)
    w.env["ARMCI_VERBOSE"] = d.choice(["1", "2", "1000"])
    if d.bool(0.3):
        k = d.choice(sorted(w.env))
        if k not in ("ARMCI_VERBOSE", "ARMCI_SHM_LIMIT", "ARMCI_RMA_ORDERING", "SIM_LIBVERSION"):
            w.env[k] = d.choice(GARBAGE)
    w.init()
    o = O17()
    o.ops, o.phases, o.nallocs = (0, 2), (1, 1), (1, 1)
    if truth(w.env.get("ARMCI_IOV_CHECKS")):
        o.overlap_acc = o.multi_alloc = True
    make_allocs(d, w, o)
    w.allop("barrier")
    run_phases(d, w, o)
    w.finish()
    w.expect.append(["oracle", "verbose", {"want": expected_settings(w.env, w.build["variant"])}])
    w.nontrivial = True
    return w.case()


reg(Prop("C17", [Group("settings", c17, 6000), Group("parsing", c17parse, 1500)],
         "a generated race-free program (data movement; or groups, messages, mutexes, allocation and identity queries too) run under a drawn assignment of all documented environment settings, valid and malformed; memory and return values must equal the model, which "
         "knows nothing of the settings; the verbose report must show the documented meaning of every value. Non-trivial: operations issued, or settings reported."))


# ---------------------------------------------------------------- C21
class O21(Opt):
    scalar = 1.0
    only_values = True
    types = [RAW]
    nb = 0.4
    ops = (2, 9)
    role_w = [(6, "x"), (1, "ro")]


def c21(d):
    return phase_case(d, O21(), NPS, tuning=0.5).case()


class O21h(O21):
    huge = True
    nallocs = (1, 2)


def c21huge(d):
    return phase_case(d, O21h(), ((3, 2), (2, 3)), tuning=0.5).case()


reg(Prop("C21", [Group("values", c21, 6000), Group("huge-window", c21huge, 500)],
         "sequences of put-value (blocking and not) and get-value calls of the four types with extreme, special and random bit patterns at any byte offset of any process including the "
         "caller; values returned and all memory compared bit for bit. Non-trivial: at least one value operation."))


# ---------------------------------------------------------------- C22
class O22(Opt):
    dla = 0.45
    nb = 0.25
    ops = (1, 6)
    phases = (2, 4)
    role_w = [(6, "x"), (2, "ro"), (1, "acc")]
    shared_local = 0.1
    syncs = ["barrier", "afence", "afence_sync", "p2p"]
    scalar = 0.1


def c22(d):
    w = base_world(d, NPS)
    tune(d, w, 0.35, shr=False)
    if d.bool(0.7):
        w.cfg["model"] = 1
        w.env["ARMCI_SHR_BUF_METHOD"] = "COPY"
        w.no_self = True
        w.labels.add("separate-memory-model")
    elif d.bool():
        w.env["ARMCI_SHR_BUF_METHOD"] = d.choice(["NOGUARD", "COPY"])
    if d.bool(0.3):
        w.env["ARMCI_MSG_BARRIER_SYNCS"] = d.choice(["1", "0"])
    o = O22()
    if w.no_self:
        o.shared_local = 0.0
    w.init()
    make_allocs(d, w, o)
    w.allop("barrier")
    n = d.int(*o.phases)
    bare = False
    for ph in range(n):
        d.span(7)
        assign_roles(d, w, o)
        for r in range(w.np):
            hs = []
            for _ in range(d.int(*o.ops)):
                d.span(8)
                gen_op(d, w, r, o, hs)
                d.endspan()
        how = d.choice(o.syncs + ["mbar"])
        if how == "mbar":
            for r in range(w.np):
                w.complete_all(r)
                w.unf[r] = []
            w.allop("afence")
            w.allop("mbar")
        else:
            w.sync(how)
        # plain loads are allowed after a global barrier, and after a message barrier
        # when it synchronises the windows
        if how == "barrier" or (how in ("mbar", "afence") and truth(w.env.get("ARMCI_MSG_BARRIER_SYNCS"))):
            if d.bool(0.5):
                w.labels.add("bare-load-after-" + how)
                for a in w.allocs:
                    for r in a.members:
                        if a.mem.get(r):
                            w.dump(r, a.tok(r, 0), a.mem[r], "loads after %s of allocation %d on process %d" % (how, a.id, r))
                w.sync("barrier")
        d.endspan()
    w.finish()
    w.nontrivial = w.nops > 0
    return w.case()


reg(Prop("C22", [Group("coherence", c22, 6500)],
         "alternating phases of direct loads/stores by the owner inside access sections (begun at any address), bare loads after barriers, and one-sided operations by all, "
         "separated by every kind of synchronisation, with a window whose public and private copies are separate (updated only at MPI synchronisation calls) or unified. "
         "Every load and the final contents compared with the model. Non-trivial: at least one access.",
         assumptions=["the separate memory model is combined with the COPY shared-buffer method, as the library requires",
                      "in the separate model, processes access their own memory by loads and stores only and pass private local buffers"]))
