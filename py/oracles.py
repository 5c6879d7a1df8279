"""Declarative expectations and history oracles.  judge_expect(expect, result)
returns None or a description of the first violated expectation."""


def _hexdiff(exp, got):
    if len(exp) != len(got):
        return "length %d instead of %d" % (len(got) // 2, len(exp) // 2)
    bad = [i for i in range(0, len(exp), 2) if exp[i:i + 2] != got[i:i + 2] and exp[i:i + 2] != "??"]
    if not bad:
        return None
    i = bad[0]
    return "%d of %d bytes differ, first at offset %d: expected %s got %s" % (
        len(bad), len(exp) // 2, i // 2, exp[i:i + 32], got[i:i + 32])


def parse(res):
    """index the logs"""
    idx = {"D": {}, "R": {}, "V": {}, "W": {}, "T": {}, "C": {}, "P": {}}
    for r, text in res.logs.items():
        for l in text.splitlines():
            w = l.split()
            if not w or w[0] not in idx:
                continue
            if w[0] == "D":
                idx["D"][(r, w[1])] = "" if len(w) < 3 or w[2] == "-" else w[2]
            else:
                idx[w[0]].setdefault((r, int(w[1])), w[2:])
    return idx


ORACLES = {}


def oracle(f):
    ORACLES[f.__name__] = f
    return f


def judge_expect(expect, res):
    want = ["OK"]
    for e in expect:
        if e[0] == "status":
            want = e[1]
    if res.status not in want:
        return "ended with %s: %s" % (res.line(), "" if res.status != "CRASH" else _asan(res.out))
    if res.status != "OK":
        for e in expect:
            if e[0] == "at":  # which rank stopped, at which operation
                if res.frank != e[1] or res.at[e[1]] != e[2]:
                    return "stopped at rank %d op %s instead of rank %d op %d (%s)" % (res.frank, res.at, e[1], e[2], res.msg)
        for e in expect:
            if e[0] == "oracle" and e[2].get("always"):
                p = ORACLES[e[1]](res, parse(res), **{k: v for k, v in e[2].items() if k != "always"})
                if p:
                    return p
        return None
    ix = parse(res)
    strict = False
    listed = set()
    for e in expect:
        k = e[0]
        if k == "dump":
            got = ix["D"].get((e[1], e[2]))
            if got is None:
                return "rank %d: dump %s (%s) missing" % (e[1], e[2], e[4])
            d = _hexdiff(e[3], got)
            if d:
                return "rank %d: %s: %s" % (e[1], e[4], d)
        elif k in ("R", "V", "W"):
            got = ix[k].get((e[1], e[2]))
            if k == "R":
                listed.add((e[1], e[2]))
                got = got or ["0"]
            if k == "W" and got:
                got = got[:1]
            if got != [str(x) for x in e[3]]:
                return "rank %d op %d (%s): returned %s, expected %s" % (e[1], e[2], e[4], got, e[3])
        elif k == "NZ":
            listed.add((e[1], e[2]))
            if (ix["R"].get((e[1], e[2])) or ["0"])[0] == "0":
                return "rank %d op %d (%s): returned 0" % (e[1], e[2], e[4])
        elif k == "Rin":
            listed.add((e[1], e[2]))
            got = (ix["R"].get((e[1], e[2])) or ["0"])[0]
            if got not in e[3]:
                return "rank %d op %d (%s): returned %s" % (e[1], e[2], e[4], got)
        elif k == "strict":
            strict = True
        elif k == "oracle":
            p = ORACLES[e[1]](res, ix, **{k: v for k, v in e[2].items() if k != "always"})
            if p:
                return p
    if strict:
        for (r, op), v in ix["R"].items():
            if (r, op) not in listed and v != ["0"]:
                return "rank %d op %d returned %s instead of 0" % (r, op, v)
    return None


@oracle
def verbose(res, ix, want):
    import re
    got = dict(re.findall(r"^ +([A-Z_]+(?: type used)?) += (.*?) *$", res.out, re.M))
    for k, v in sorted(want.items()):
        if got.get(k) != v:
            return "configuration reports %s = %r, expected %r" % (k, got.get(k), v)


@oracle
def rmwlin(res, ix, bits, init, ops, final):
    """some sequential order of the atomic operations on one location, consistent with
    program order, with real time and with every returned value, ends in the final value.
    ops: [rank, op, code, increment, swapped-in value]; final: dump [rank, tag, offset]"""
    mask = (1 << bits) - 1
    h = {}
    for r, i, code, inc, loc, *th in ops:
        g = ix["W"].get((r, i))
        if g is None:
            return "rank %d op %d: no result" % (r, i)
        v = int.from_bytes(bytes.fromhex(g[0]), "little")
        if th:          # a thread of that process
            r = (r, th[0])
        h.setdefault(r, []).append((v, code, inc & mask, loc & mask, int(g[1]), int(g[2]), i))
    d = ix["D"].get((final[0], final[1]))
    if d is None:
        return "final value missing"
    fin = int.from_bytes(bytes.fromhex(d)[final[2]:final[2] + bits // 8], "little")
    ranks = sorted(h)
    seen = set()
    stack = [(tuple(0 for _ in ranks), init & mask)]
    best = -1
    while stack:
        s = stack.pop()
        if s in seen:
            continue
        seen.add(s)
        pos, val = s
        nxt = [h[r][p] if p < len(h[r]) else None for r, p in zip(ranks, pos)]
        live = [x for x in nxt if x]
        best = max(best, sum(pos))
        if not live:
            if val == fin:
                return None
            continue
        first_end = min(x[5] for x in live)
        for k, x in enumerate(nxt):
            if x and x[0] == val and x[4] <= first_end:
                nv = (val + x[2]) & mask if x[1] < 2 else x[3]
                stack.append((pos[:k] + (pos[k] + 1,) + pos[k + 1:], nv))
    txt = "; ".join("rank %s: " % (r,) + ", ".join("%s(%d)=%d" % ("swap" if x[1] > 1 else "add", x[3] if x[1] > 1 else x[2], x[0]) for x in h[r]) for r in ranks)
    return "no sequential explanation: initial %d, final %d, %s (longest explained prefix %d)" % (init & mask, fin, txt, best)


@oracle
def anysrc(res, ix, hub, rec, sent, fill):
    """receives from anyone: each sender's messages arrive whole and in order"""
    q = {int(k): list(v) for k, v in sent.items()}
    for i, tag in rec:
        v = ix["V"].get((hub, i))
        d = ix["D"].get((hub, tag))
        if v is None or d is None:
            return "receive %d has no result" % i
        n, src = int(v[0]), int(v[1])
        if not q.get(src):
            return "receive %d reports sender %d, from which no message is left" % (i, src)
        want = q[src].pop(0)
        if n != len(want) // 2:
            return "receive %d from process %d: length %d instead of %d" % (i, src, n, len(want) // 2)
        if d != want + fill * ((len(d) - len(want)) // 2):
            return "receive %d from process %d: wrong bytes" % (i, src)
    return None


@oracle
def bintree(res, ix, at):
    """at[i]: where process i logged root, parent, left and right child"""
    t = [[int(x) for x in ix["V"][(r, i)]] for r, i in at]
    n = len(t)
    root = t[0][0]
    if any(x[0] != root for x in t) or not 0 <= root < n:
        return "processes disagree about the root: %s" % [x[0] for x in t]
    for i, (_, up, l, r) in enumerate(t):
        for c in (l, r):
            if c != -1 and (not 0 <= c < n or t[c][1] != i):
                return "process %d has child %d whose parent is %s" % (i, c, t[c][1] if 0 <= c < n else "nobody")
        if l != -1 and l == r:
            return "process %d has one child twice" % i
        if i == root:
            if up != -1:
                return "the root has parent %d" % up
        elif not 0 <= up < n or i not in t[up][2:]:
            return "process %d is not a child of its parent %d" % (i, up)
        seen, j = set(), i
        while j != root:
            if j in seen:
                return "process %d is not below the root" % i
            seen.add(j)
            j = t[j][1]
    return None


@oracle
def domains(res, ix, at):
    n = len(at)
    ref = None
    for me, (r, i) in enumerate(at):
        w = ix["V"].get((r, i))
        if w is None:
            return "process %d: no topology" % me
        if [int(w[0]), int(w[1])] != [me, n]:
            return "process %d of %d reports to be %s of %s" % (me, n, w[0], w[1])
        cnt, myid = int(w[3]), int(w[5])
        k = 7
        ids = [int(x) for x in w[k:k + n]]
        k += n + 1
        same = [int(x) for x in w[k:k + n]]
        k += n + 1
        node = [int(x) for x in w[k:k + n]]
        k += n
        doms = []
        for _ in range(cnt):
            if w[k] != "dom":
                return "process %d: malformed topology" % me
            m = int(w[k + 1])
            doms.append([int(x) for x in w[k + 2:k + 2 + m]])
            k += 2 + m
        if sorted(x for d in doms for x in d) != list(range(n)):
            return "process %d: domains %s do not partition %d processes" % (me, doms, n)
        for p in range(n):
            if not 0 <= ids[p] < cnt or p not in doms[ids[p]]:
                return "process %d: process %d is said to be in domain %d but the domains are %s" % (me, p, ids[p], doms)
            s = ids[p] == ids[me]
            if bool(same[p]) != s:
                return "process %d: same-domain answer %d for process %d, domains %s" % (me, same[p], p, doms)
            if bool(node[p]) != s:
                return "process %d: same-node answer %d for process %d, domains %s" % (me, node[p], p, doms)
        if myid != ids[me]:
            return "process %d: own domain id %d, but %d by process id" % (me, myid, ids[me])
        if ref is None:
            ref = (ids, doms)
        elif ref != (ids, doms):
            return "processes disagree about the domains"
    return None


@oracle
def alloc_tables(res, ix, hist):
    """hist: ["a", id, [[rank, op, size] per member]] and ["f", id]"""
    live = {}
    for e in hist:
        if e[0] == "f":
            live.pop(e[1], None)
            continue
        aid, mem = e[1], e[2]
        tabs = []
        for r, op, size in mem:
            t = ix["T"].get((r, op))
            if t is None:
                return "allocation %d: no result on process %d" % (aid, r)
            if t[1] != "0":
                return "allocation %d: returned %s on process %d" % (aid, t[1], r)
            tabs.append(t[2:])
        for (r, op, size), t in zip(mem, tabs):
            if t != tabs[0]:
                return "allocation %d: address tables of processes %d and %d differ: %s %s" % (aid, mem[0][0], r, tabs[0], t)
        if len(tabs[0]) != len(mem):
            return "allocation %d: %d entries for %d members" % (aid, len(tabs[0]), len(mem))
        for (r, op, size), s in zip(mem, tabs[0]):
            a = int(s, 16)
            if size == 0:
                if a != 0 and not any(sz for _, _, sz in mem):
                    return "allocation %d: nobody has memory, but process %d has address %x" % (aid, r, a)
                continue
            if a == 0:
                return "allocation %d: process %d asked for %d bytes and got NULL" % (aid, r, size)
            for other, l in live.items():
                for r2, lo, hi in l:
                    if r2 == r and a < hi and lo < a + size:
                        return "allocation %d on process %d overlaps live allocation %d" % (aid, r, other)
            live.setdefault(aid, []).append((r, a, a + size))
    return None


@oracle
def ctree(res, ix, evs):
    import bisect, math
    S = {}
    for e in evs:
        t = S.setdefault(e[1], [])
        if e[0] == "x":
            S[e[1]] = []
            continue
        key = (0, e[2])
        if e[0] in "il":
            lo, hi = e[3], e[4]
            k = bisect.bisect_right(t, (hi, 1 << 65))
            ov = k > 0 and t[k - 1][1] >= lo
        if e[0] == "i":
            got = (ix["R"].get(key) or ["?"])[0]
            if got == "?" or (got != "0") != ov:
                return "op %d: inserting [%d,%d] returned %s, but it %s (set %s)" % (e[2], lo, hi, got, "overlaps a member" if ov else "overlaps no member", t[:12])
            if not ov:
                t.insert(k, (lo, hi))
        elif e[0] == "l":
            got = ix["V"].get(key)
            if got is None:
                return "op %d: no answer" % e[2]
            if got == ["none"]:
                if ov:
                    return "op %d: locating [%d,%d] found nothing, but it overlaps a member" % (e[2], lo, hi)
            else:
                a, b = int(got[0]), int(got[1])
                if (a, b) not in t:
                    return "op %d: locating found [%d,%d], which is not a member" % (e[2], a, b)
                if a > hi or b < lo:
                    return "op %d: locating [%d,%d] found [%d,%d], which does not overlap it" % (e[2], lo, hi, a, b)
        elif e[0] == "d":
            got = [tuple(int(y) for y in x.split("-")) for x in ix["C"].get(key, [])]
            if got != t:
                return "op %d: the tree in order is %s, expected %s" % (e[2], got[:20], t[:20])
        elif e[0] == "h":
            h = int(ix["V"][key][0])
            if h > 1.4405 * math.log2(len(t) + 2):
                return "op %d: height %d with %d members: not balanced" % (e[2], h, len(t))
    return None


def _live(ix, hist):
    """process -> {allocation: (lo, hi)}, and members, from the logged address tables"""
    base, live, mem = {}, {}, {}
    for e in hist:
        if e[0] == "f":
            live.pop(e[1], None)
            continue
        for k, (r, op, size, p) in enumerate(e[2]):
            t = ix["T"].get((r, op))
            if t is None:
                return None
            tab = [int(x, 16) for x in t[2:]]
            base[e[1]] = tab
            mem[e[1]] = [x[3] for x in e[2]]
            live.setdefault(e[1], {})[p] = (tab[k], tab[k] + size)
    return base, live, mem


@oracle
def invalid(res, ix, hist, r, caller, t, op, acts, odd, single, pend):
    L = _live(ix, hist)
    if L is None:
        return "no address table before %s" % res.line()
    base, live, mem = L

    def where(ds, n, al=1):
        if ds[0] == "p":
            return None
        a = ds[1] if ds[0] == "x" else base[ds[1]][ds[2]] + ds[3]
        a &= (1 << 64) - 1
        if a % al:
            return "?"
        for k, v in live.items():
            if t in v and caller in mem[k] and v[t][0] <= a and a + n <= v[t][1]:
                return k
        return None
    bad = odd
    either = False
    for act in acts:
        w = [where(*b) for b in act]
        if "?" in w:
            either = True
        if None in w:
            bad = True
        elif len(set(w)) > 1:
            either = True
    if either:
        return None
    if not bad:
        return None if res.status == "OK" else "a valid access was rejected: %s" % res.line()
    if res.status == "OK":
        return "an invalid access to process %d was carried out or ignored (rank %d op %d)" % (t, r, op)
    if res.frank != r or res.at[r] != op:
        return "stopped at rank %d op %s instead of rank %d op %d (%s)" % (res.frank, res.at, r, op, res.msg)
    if not res.out.strip():
        return "no diagnostic"
    if single and res.stats.get("rma", 0):
        return "a transfer was issued before the invalid access was rejected"
    return None


@oracle
def freeother(res, ix, r, op, addr, caller, hist):
    L = _live(ix, hist)
    if L is None:
        return None
    base, live, mem = L
    a = base[addr[0]][addr[1]] + addr[2]
    for k, v in live.items():
        if caller in v and v[caller][0] <= a < v[caller][1]:
            return None       # a live address here, by coincidence of placement
    if res.status != "ABORT" or res.frank != r or res.at[r] != op:
        return "freeing memory that is not the caller's was not rejected: %s" % res.line()
    return None


@oracle
def diag(res, ix):
    return None if res.out.strip() else "no diagnostic"


@oracle
def gaveup(res, ix, code, text):
    if res.code != code:
        return "the program was stopped with code %d instead of %d" % (res.code, code)
    if text not in res.out:
        return "the message of the error is not printed"


def _asan(out):
    for l in out.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assert" in l:
            return l.strip()[:300]
    return out.strip()[:200]


# ------------------------------------------------------------ shipped profiler
_CAT = {"Put": "Put PutS PutV Put_flag PutS_flag", "Get": "Get GetS GetV", "Acc": "Acc AccS AccV", "NbPut": "NbPut NbPutS NbPutV", "NbGet": "NbGet NbGetS NbGetV",
        "NbAcc": "NbAcc NbAccS NbAccV", "Rmw": "Rmw", "Barrier": "Barrier", "Wait": "Wait Test WaitAll WaitProc", "Fence": "Fence AllFence",
        "Locks": "Create_mutexes Destroy_mutexes Lock Unlock", "Global memory management": "Malloc Free Malloc_memdev Malloc_group_memdev Free_memdev",
        "Local memory management": "Malloc_local Free_local"}


def _prof_bytes(prog):
    """category -> [bytes of each profiled call], from the program text"""
    out = {k: [] for k in _CAT}
    for line in prog:
        w = line.split()
        v = w[0]
        if v.startswith("!"):
            continue
        nb = v.startswith("nb")
        b = v[2:] if nb else v
        if b in ("put", "get"):
            out[("Nb" if nb else "") + b.capitalize()].append(int(w[3]))
        elif b == "acc":
            out["NbAcc" if nb else "Acc"].append(int(w[5]))
        elif b in ("puts", "gets", "accs", "putsf"):
            ct = w[7 if b == "accs" else 5]
            n = 1
            for x in ct.split(","):
                n *= int(x)
            out[("Nb" if nb else "") + b[:3].capitalize()].append(n)
        elif b == "putf":
            out["Put"].append(int(w[3]))
        elif b in ("putv", "getv", "accv"):
            i = 1 + nb + (2 if b == "accv" else 0)
            k, i, n = int(w[i + 1]), i + 2, 0
            for _ in range(k):
                n += int(w[i]) * int(w[i + 1])
                i += 2 + 2 * int(w[i + 1])
            out[("Nb" if nb else "") + b[:3].capitalize()].append(n)
        elif b == "rmw":
            out["Rmw"].append(8 if w[-1] == "L" else 4)
        elif b in ("malloc", "mdmalloc", "mdgmalloc"):
            out["Global memory management"].append(int(w[2]))
        elif b == "lmalloc":
            out["Local memory management"].append(int(w[2]))
    return out


@oracle
def profile(res, ix, at, progs, long_rmw):
    import re
    if "ARMCI-MPI profiling results:" not in res.out:
        return "no profile was written"
    cnt = {}
    for r, i in enumerate(at):
        c = ix["P"].get((r, i))
        if c is None:
            return "no call counts from rank %d" % r
        for e in c:
            k, n = e.split("=")
            cnt[k] = cnt.get(k, 0) + int(n)
    want = {k: [] for k in _CAT}
    for p in progs:
        for k, v in _prof_bytes(p).items():
            want[k] += v
    want["Rmw"] = [8 if x else 4 for x in long_rmw]
    for cat, names in _CAT.items():
        n = sum(cnt.get("ARMCI_" + x, 0) for x in names.split())
        if cat == "Barrier":
            n += cnt.get("armci_msg_barrier", 0) + cnt.get("armci_msg_group_barrier", 0)
        m = re.search(r"^%s called (-?\d+) times(.*)$" % re.escape(cat), res.out, re.M)
        if not m:
            return "no line for %s in the profile" % cat
        if int(m.group(1)) != n:
            return "the profile says %s was called %s times, the application called it %d times" % (cat, m.group(1), n)
        if not n:
            continue
        b = re.search(r"total bytes ?= ?(-?\d+)", m.group(2))
        nb = sum(want[cat])
        if (int(b.group(1)) if b else 0) != nb:
            return "the profile says %s moved %s bytes, the application asked for %d" % (cat, b.group(1) if b else 0, nb)
        if cat in ("Put", "Get", "Acc"):
            rows = [0] * 9
            for x in want[cat]:
                rows[min(8, len(str(x)) - 1)] += 1
            at0 = m.end()
            for i in range(9):
                q = re.compile(r" 10\^%d: ((?:-?\d+, )+)" % i).search(res.out, at0)
                if not q or sum(int(x) for x in q.group(1).split(", ")[:-1]) != rows[i]:
                    return "the %s histogram has %s calls of 10^%d bytes, the application made %d" % (cat, q.group(1) if q else None, i, rows[i])
        else:
            q = re.search(r"avg,min,max=(\S+), (\S+), (\S+)", m.group(2))
            a, lo, hi = (float(x) for x in q.groups()) if q else (0, 1, 0)
            if not (0 <= lo <= a + 1e-6 and a <= hi + 1e-6):
                return "%s: average %g, minimum %g, maximum %g" % (cat, a, lo, hi)
    return None
