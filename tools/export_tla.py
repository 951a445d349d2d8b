#!/usr/bin/env python3
"""Compile the small instance(s) of each Quint specification to TLA+ for TLC.

usage: export_tla.py [SPEC[:MODULE] ...]     (default: everything in checks.TLC)
Writes spec/tla/<spec>_<module>.tla and .cfg.  The view drops `obs`, so that TLC
counts system states and not the observations made on the way to them.
"""
import hashlib, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(SPEC, "tla")

def sources(spec, seen=None):
    seen = {} if seen is None else seen
    path = os.path.join(SPEC, spec + ".qnt")
    if path in seen:
        return seen
    text = open(path).read()
    seen[path] = text
    for m in re.finditer(r'from\s+"\./(\w+)"', text):
        sources(m.group(1), seen)
    return seen

def spec_hash(spec):
    h = hashlib.sha256()
    for p, t in sorted(sources(spec).items()):
        h.update(os.path.basename(p).encode()); h.update(t.encode())
    return h.hexdigest()

def export(spec, module="small", inv="safety"):
    tmp = os.path.join(ROOT, "work", f"export_{spec}_{module}")
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    r = subprocess.run(["quint", "compile", "--target", "tlaplus", "--main", module, "--server-endpoint",
                        f"localhost:{20000 + int(hashlib.md5((spec + module).encode()).hexdigest(), 16) % 20000}", "--step", "stepAll", "--init",
                        "initAll" if "action initAll" in sources(spec)[os.path.join(SPEC, spec + ".qnt")] else "init",
                        "--invariant", inv, os.path.join(SPEC, spec + ".qnt")],
                       cwd=tmp, capture_output=True, text=True)
    s = r.stdout
    i = s.find("---- MODULE")
    if r.returncode or i < 0:
        sys.exit(f"{spec}: export failed\n{r.stdout[-2000:]}\n{r.stderr[-2000:]}")
    i = s.rfind("\n", 0, i) + 1
    s = s[i:]
    end = [m.start() for m in re.finditer(r"^=+\s*$", s, re.M)][-1]
    body = s[:end]
    name = f"{spec}_{module}"
    body = re.sub(r"MODULE \w+", f"MODULE {name}", body, 1)
    vars_ = []
    for blk in re.finditer(r"^VARIABLES?\b(.*?)(?=^\S|\Z)", body, re.M | re.S):
        t = re.sub(r"\(\*.*?\*\)", "", blk.group(1), flags=re.S)
        t = re.sub(r"\\\*.*", "", t)
        vars_ += [v.strip() for v in t.replace("\n", ",").split(",") if v.strip()]
    view = [v for v in vars_ if not v.endswith("obs")]
    body += f"\nView == <<{', '.join(view)}>>\n\n" + "=" * 78 + "\n"
    h = spec_hash(spec)
    open(os.path.join(OUT, name + ".tla"), "w").write(f"\\* generated by tools/export_tla.py from {spec}.qnt {h}\n" + body)
    open(os.path.join(OUT, name + ".cfg"), "w").write(
        "INIT q_init\nNEXT q_step\nINVARIANT q_inv\nVIEW View\nCHECK_DEADLOCK FALSE\n")
    shutil.rmtree(tmp, ignore_errors=True)
    print("wrote", name)

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    args = sys.argv[1:]
    if not args:
        sys.path.insert(0, ROOT)
        import checks
        args = sorted({f"{s}:{m}:{i}" for c in checks.CHECKS.values() for (s, m, i) in c.get("tlc", [])})
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda a: export(*a.split(":")), args))
