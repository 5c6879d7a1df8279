"""Writes a profiling tool for the public interface: one strong definition of
every ARMCI_ entry point that has a PARMCI_ counterpart in the public headers,
reporting the call and forwarding to the PARMCI_ name."""
import os, re

KEEP = re.compile(r"^\s*([A-Za-z_][\w\s]*?[\s*]+)(PARMCI_\w+|parmci_\w+)\s*\(([^;{]*)\)\s*;", re.M)


def prototypes(repo):
    """[(return type, PARMCI name, ARMCI name, [(type and name, name)])]"""
    out, seen = [], set()
    for h in ("armci.h", "message.h", "armcix.h"):
        p = os.path.join(repo, "src", h)
        if not os.path.exists(p):
            continue
        t = open(p, errors="replace").read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        for m in KEEP.finditer(t):
            ret, pn, args = m.group(1).strip(), m.group(2), " ".join(m.group(3).split())
            if pn in seen or ret.startswith(("return", "extern \"C\"", "static")):
                continue
            ret = re.sub(r"\bextern\b", "", ret).strip()
            ps = []
            ok = True
            if args and args != "void":
                for a in args.split(","):
                    k = re.match(r"^(.*?)(\w+)\s*((?:\[[^\]]*\])*)$", a.strip())
                    if not k or not k.group(1).strip():
                        ok = False
                        break
                    ps.append((a.strip(), k.group(2)))
            if ok:
                seen.add(pn)
                out.append((ret, pn, ("ARMCI_" + pn[7:]) if pn.startswith("PARMCI_") else "armci_" + pn[7:], ps))
    return out


def generate(repo):
    s = ["#include <armci.h>", "#include <armcix.h>", "void prof_seen(const char *);"]
    for ret, pn, an, ps in prototypes(repo):
        s.append("%s %s(%s) { prof_seen(\"%s\"); %s%s(%s); }" % (
            ret, an, ", ".join(a for a, _ in ps) or "void", an, "" if ret == "void" else "return ", pn, ", ".join(n for _, n in ps)))
    return "\n".join(s) + "\n"


if __name__ == "__main__":
    print(generate(os.environ.get("VERIF_REPO", "/repo")))
