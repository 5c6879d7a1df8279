#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough] [--seed N] [--only group] [--scale F]
   check.py replay FILE        re-runs one replay file
   check.py build              builds everything"""
import os, sys, json
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))


def registry():
    import p_data
    for m in ("p_sync", "p_obj", "p_misc", "p_tool", "p_thread"):
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "py", m + ".py")):
            __import__(m)
    return p_data.REG


def main(a):
    import pbt
    if a[0] == "build":
        import build
        seen = []
        for p in registry().values():
            for b in p.builds:
                if b not in seen:
                    seen.append(b)
                    try:
                        print(b, build.build(**b))
                    except build.BuildError as e:
                        print(b, e)      # reported by the check that needs this build
        return 0
    if a[0] == "replay":
        j = json.load(open(a[1]))
        if j["program"] is None:
            import build
            try:
                build.build(**j["build"])
            except build.BuildError as e:
                print(e)
                print("VIOLATION property=%s replay=%s" % (j["property"], a[1]))
                return 1
            print("the library links")
            return 0
        pool = pbt.Pool()
        c = pbt.Case(j["program"], j["expect"], j["build"])
        p, inc, res = pbt.evaluate(pool, c, sym=True)
        pool.close()
        print("status:", res.line())
        print(res.out)
        if p:
            print(p)
            print("VIOLATION property=%s replay=%s" % (j["property"], a[1]))
            return 1
        print("the property holds on this case")
        return 0
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    only, scale = None, 1.0
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--only":
            only = a[i + 1].split(",")
        elif a[i] == "--scale":
            scale = float(a[i + 1])
        i += 2
    p = registry()[a[0]]
    extra = getattr(p, "extra", None)
    return pbt.run_check(p.id, p.groups, tier, seed, p.rule, p.builds, p.assumptions, only=only, scale=scale, extra=extra)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
