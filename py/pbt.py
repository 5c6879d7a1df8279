"""Property-based testing harness: Hypothesis drives generation and shrinking,
runner processes execute the generated programs, declarative expectations judge
them.  Eight workers explore disjoint (seed, group, slice) streams."""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import hypothesis
import hypothesis.internal.conjecture.engine as _eng
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st

import build as _build
from simrun import Runner, RunnerError
from oracles import judge_expect

_eng.MAX_SHRINKING_SECONDS = 45


class D:
    """drawing interface used by all generators (every choice goes through
    Hypothesis, so every choice shrinks); index 0 / low end is the simplest."""
    __slots__ = ("cd",)

    def __init__(self, data):
        self.cd = data.conjecture_data

    def int(self, a, b):
        return self.cd.draw_integer(a, b) if a < b else a

    def bool(self, p=0.5):
        return self.cd.draw_boolean(p)

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is the simplest"""
        tot = sum(w for w, _ in pairs)
        k = self.int(0, tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def more(self, p):
        return self.cd.draw_boolean(p)

    def span(self, label=1):
        self.cd.start_span(label)

    def endspan(self):
        self.cd.stop_span()

    def subset(self, seq, atleast=0):
        out = [x for x in seq if self.bool()]
        if len(out) < atleast:
            out = list(seq)[:atleast]
        return out

    def perm(self, seq):
        s = list(seq)
        for i in range(len(s) - 1):
            j = self.int(i, len(s) - 1)
            s[i], s[j] = s[j], s[i]
        return s

    def seed(self):
        return self.cd.draw_integer(0, (1 << 32) - 1)


class Case:
    """text: runner program.  expect: JSON list judged by oracles.judge_expect.
    build: keyword arguments of build.build.  key: what counts as the input."""
    __slots__ = ("text", "expect", "build", "labels", "nontrivial", "note")

    def __init__(self, text, expect, build=None, labels=(), nontrivial=True, note=""):
        self.text, self.expect, self.build = text, expect, build or {"variant": 1}
        self.labels, self.nontrivial, self.note = set(labels), nontrivial, note


class Group:
    def __init__(self, name, gen, quick, thorough=None, rule=""):
        self.name, self.gen, self.quick, self.thorough, self.rule = name, gen, quick, thorough or quick * 12, rule


class Violation(Exception):
    pass


class Pool:
    """runners by build"""
    def __init__(self):
        self.r = {}
        self.exes = {}

    def get(self, b, sym=False):
        k = json.dumps(b, sort_keys=True) + str(sym)
        if k not in self.r:
            self.r[k] = Runner(_build.build(**b), wall=20, symbolize=sym)
        return self.r[k]

    def close(self):
        for r in self.r.values():
            r.close()
        self.r = {}


def evaluate(pool, case, sym=False):
    """-> (problem or None, inconclusive flag, result)"""
    res = pool.get(case.build, sym).run(case.text)
    if res.status in ("UNSUPPORTED", "TIMEOUT"):
        return None, True, res
    return judge_expect(case.expect, res), False, res


def _worker(wid, prop, groups, counts, seed, q, stop, deadline):
    try:
        import signal
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        pool = Pool()
        stats = {"evals": 0, "nontrivial": set(), "labels": {}, "samples": [], "inconclusive": 0, "incsample": [],
                 "sim": {}, "groups": {}}
        for gi, (g, n) in enumerate(zip(groups, counts)):
            if n <= 0 or stop.is_set() or time.time() > deadline:
                continue
            t0 = time.time()
            found = {}
            ran = [0]

            def run_one(data, g, found, ran):
                if time.time() > deadline or (stop.is_set() and not found):
                    return
                case = g.gen(D(data))
                p, inc, res = evaluate(pool, case)
                stats["evals"] += 1
                ran[0] += 1
                if inc:
                    stats["inconclusive"] += 1
                    if len(stats["incsample"]) < 3:
                        stats["incsample"].append((g.name, res.line()[:300], case.text))
                    return
                for l in case.labels:
                    stats["labels"][l] = stats["labels"].get(l, 0) + 1
                for k, v in res.stats.items():
                    stats["sim"][k] = stats["sim"].get(k, 0) + v
                if case.nontrivial:
                    h = hashlib.blake2b(case.text.encode(), digest_size=8).digest()
                    stats["nontrivial"].add(h)
                    if 200 < len(case.text) < 4000 and len(stats["samples"]) < 2 and ran[0] > 3:
                        stats["samples"].append({"group": g.name, "case": case.text})
                if p:
                    found["case"], found["problem"], found["res"] = case, p, res
                    # one fixed exception site and message: hypothesis shrinks within it
                    raise Violation("violation")

            def mk(g, found, ran):
                def body(data):
                    run_one(data, g, found, ran)
                return body

            test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                            phases=[Phase.generate] + ([] if os.environ.get("VERIF_NOSHRINK") else [Phase.shrink]), report_multiple_bugs=False,
                            verbosity=hypothesis.Verbosity.quiet)(
                   hseed(int.from_bytes(hashlib.sha256(("%d|%s|%s|%d" % (seed, prop, g.name, wid)).encode()).digest()[:8], "big"))(
                   given(st.data())(mk(g, found, ran))))
            try:
                test()
            except Violation:
                pass
            except hypothesis.errors.Flaky:
                pass
            except BaseException as e:
                if "case" not in found:
                    raise
            gs = stats["groups"].setdefault(g.name, [0, 0.0])
            gs[0] += ran[0]
            gs[1] += time.time() - t0
            if found:
                stop.set()
                c = found["case"]
                q.put(("viol", wid, g.name, c.text, c.expect, c.build, c.note, found["problem"], found["res"].line(), found["res"].out[-3000:]))
                break
        pool.close()
        q.put(("done", wid, stats))
    except BaseException:
        q.put(("error", wid, traceback.format_exc()))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return []


def show_findings(pool, prop):
    """re-run the recorded inputs of defects that are known and not repaired"""
    out = []
    for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]:
        if f["property"] == prop:
            c = Case(open(os.path.join(VERIF, f["program"])).read(), [], f["build"])
            p, _, res = evaluate(pool, c)
            if p:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
            out.append({"id": f["id"], "still_fails": bool(p), "status": res.line()})
    return out


def run_check(prop, groups, tier, seed, rule, builds, assumptions=(), nworkers=8, only=None, scale=1.0, extra=None):
    t0 = time.time()
    for b in builds:
        try:
            _build.build(**b)
        except _build.BuildError as e:
            if not (e.link and (b.get("prof") or b.get("noweak"))):
                print(e)
                return 3
            # the plain library links, the one a profiling tool or wrapper build needs does not
            path = os.path.join(VERIF, "replay", "%s-link.json" % prop)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": prop, "group": "link", "build": b, "problem": str(e)[-3000:], "status": "LINK", "program": None}, open(path, "w"), indent=1)
            print(str(e)[-2000:])
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
            return 1
    tb = time.time() - t0
    if only:
        groups = [g for g in groups if g.name in only]
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    total = [max(1, int((g.quick if tier == "quick" else g.thorough) * scale)) for g in groups]
    # rotate group order per worker so that a failing group is met early by someone
    deadline = t0 + (600 if tier == "quick" else 6 * 3600)
    procs = []
    for w in range(nworkers):
        cnt = [t // nworkers + (1 if i < t % nworkers else 0) for t in total for i in [w]]
        rot = w % len(groups)
        gs = groups[rot:] + groups[:rot]
        cs = cnt[rot:] + cnt[:rot]
        p = ctx.Process(target=_worker, args=(w, prop, gs, cs, seed, q, stop, deadline))
        p.start()
        procs.append(p)
    done, viols, errors = {}, [], []
    while len(done) + len(errors) < nworkers:
        try:
            m = q.get(timeout=5)
        except queue.Empty:
            dead = [w for w, p in enumerate(procs) if not p.is_alive() and w not in done]
            if dead and q.empty():
                time.sleep(1)
                if q.empty():
                    errors.append("worker %s died" % dead)
                    break
            continue
        if m[0] == "done":
            done[m[1]] = m[2]
        elif m[0] == "viol":
            viols.append(m[1:])
        else:
            errors.append(m[2])
            stop.set()
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    # merge
    nt, labels, samples, evals, inc, incs, sim, grp = set(), {}, [], 0, 0, [], {}, {}
    for w in sorted(done):
        s = done[w]
        nt |= s["nontrivial"]
        evals += s["evals"]
        inc += s["inconclusive"]
        incs += s["incsample"]
        samples += s["samples"]
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["sim"].items():
            sim[k] = max(sim.get(k, 0), v) if k == "maxpend" else sim.get(k, 0) + v
        for k, (a, b) in s["groups"].items():
            x = grp.setdefault(k, [0, 0.0])
            x[0] += a
            x[1] = round(x[1] + b, 1)
    seen, keep = set(), []
    for s in samples:
        if s["group"] not in seen or len(keep) < 3:
            seen.add(s["group"])
            keep.append(s)
    confirmed, unrepro = [], 0
    pool = Pool()
    known = show_findings(pool, prop)
    for wid, gname, text, expect, b, note, problem, line, out in sorted(viols, key=lambda v: (len(v[2]), v[0])):
        c = Case(text, expect, b)
        k = 0
        for _ in range(3):
            p, i, res = evaluate(pool, c)
            k += bool(p)
        if k == 3:
            confirmed.append((gname, c, problem, line, note))
        else:
            unrepro += 1
            print("note: a failure of group %s did not reproduce (%d/3): %s" % (gname, k, problem))
    code = 0
    if confirmed:
        gname, c, problem, line, note = confirmed[0]
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, hashlib.sha256(c.text.encode()).hexdigest()[:10]))
        p, i, res = evaluate(pool, c, sym=True)
        json.dump({"property": prop, "group": gname, "build": c.build, "problem": problem, "status": line, "note": note,
                   "program": c.text, "expect": c.expect, "output": res.out[-6000:]}, open(path, "w"), indent=1)
        print("group %s: %s" % (gname, problem))
        print("status: %s" % line)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        code = 1
    pool.close()
    if errors and not confirmed:
        print("check error:\n" + "\n".join(map(str, errors)))
        code = 3
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nt), "rule": rule,
                       "samples": keep[:4], "per_group": {k: {"cases": v[0], "cpu_s": v[1]} for k, v in grp.items()},
                       "labels": dict(sorted(labels.items())), "simulator": sim, "inconclusive": inc,
                       "inconclusive_samples": [list(x) for x in incs[:3]], "unreproduced_failures": unrepro},
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 1), "violations": len(confirmed)}
    if known:
        ev["coverage"]["known_findings"] = known
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %.1fs (build %.1fs)" % (
        prop, tier, seed, evals, len(nt), inc, time.time() - t0, tb))
    if os.environ.get("VERIF_SHOW"):
        for k in ("per_group", "labels", "simulator"):
            print(k, json.dumps(ev["coverage"][k]))
        for x in incs[:3]:
            print("INCONCLUSIVE", x[0], x[1])
            if os.environ["VERIF_SHOW"] == "2":
                print(x[2])
    return code
