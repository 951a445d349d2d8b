#!/usr/bin/env python3
"""Development aid: mutation bench. mutate.py OUT WORKERS MAX [path-prefix...]

Applies small mechanical changes, one at a time, to scratch copies of the
repository (never /repo), rebuilds the replayers against them and replays the
quick tier's behaviours; writes one JSON line per mutant with the properties
whose check reports it.  Survivors are then read by hand (equivalent, outside
the properties, or a gap to close)."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check, checks
MB = "/tmp/mb"
ENV = dict(check.ENV)

def source(path):
    """Lines of non-test code (index, text)."""
    out = []
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\((all\()?(test|feature = \"std\")", l) or re.match(r"^mod tests", l):
            if re.match(r"^#\[cfg\((all\()?test", l): break
            continue
        s = l.strip()
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "mod ", "pub mod", "extern", "*")): continue
        out.append((i, l))
    return lines, out

SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+= ", " -= "), (r" -= ", " += "), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif !", "if "), (r"\bFloor\b", "Ceil"), (r"\bCeil\b", "Floor"),
         (r"\bis_zero\(\)", "is_one()"), (r"\bwrapping_add\b", "wrapping_sub"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
         (r"\bfrom\b", "to"), (r"\bto\b", "from"), (r"\bowner\b", "spender"), (r"\bspender\b", "owner"), (r"\breceiver\b", "owner"),
         (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\badd_assign\b", "sub_assign"),
         (r"U256::ZERO", "U256::from(1)"), (r"U256::from\(1\)", "U256::from(2)"), (r"Address::ZERO", "msg::sender()"),
         (r"msg::sender\(\)", "Address::ZERO"), (r"U256::MAX", "(U256::MAX >> 1)"), (r"\bassets\b", "shares"), (r"\bshares\b", "assets")]

def mutants(path, rel):
    lines, src = source(path)
    out = []
    def emit(i, new, kind):
        if new != lines[i]: out.append(dict(file=rel, line=i + 1, old=lines[i], new=new, kind=kind))
    for i, l in src:
        if "//" in l: l0 = l[:l.index("//")]
        else: l0 = l
        if re.search(r"\b(fn|impl|struct|enum|trait|type|where|macro_rules)\b", l0) and not l0.rstrip().endswith(";"): continue
        for a, b in SWAPS:
            for m in re.finditer(a, l0):
                if a in (r" \+ ", r" & ", r" \| ", r" \* ") and re.search(r"\b(impl|dyn|where)\b|: \w+ \+", l0): continue
                emit(i, l0[:m.start()] + b + l0[m.end():], a.strip("\\b ") + "->" + b.strip())
        for m in re.finditer(r"(?<![\w.\"x])(\d+)(?![\w.\"])", l0):
            v = int(m.group(1)); emit(i, l0[:m.start()] + str(v + 1) + l0[m.end():], "lit+1")
            if v: emit(i, l0[:m.start()] + str(v - 1) + l0[m.end():], "lit-1")
        s = l0.strip()
        if s.endswith(";") and not s.startswith(("let", "return", "pub", "type", "const", "}", ")", "]")) and s.count("(") == s.count(")"):
            emit(i, re.sub(r"\S.*", "", l0) + "();", "drop statement")
        if s.endswith("{") and s.startswith("if ") and "let" not in s:
            emit(i, l0.replace("if ", "if false && ", 1), "if false"); emit(i, l0.replace("if ", "if true || ", 1), "if true")
        if s.endswith("?;") and s.startswith("let") is False and s.count("(") == s.count(")"):
            emit(i, re.sub(r"\S.*", "", l0) + "();", "drop check")
        m = re.search(r"\.(\w+)\(([^(),]+), ([^(),]+)\)", l0)
        if m: emit(i, l0[:m.start()] + f".{m[1]}({m[3]}, {m[2]})" + l0[m.end():], "swap args")
    return out

def traces():
    for pid, c in checks.CHECKS.items():
        for j, r in enumerate(c["runs"]):
            od = f"{MB}/traces/{pid}/r{j}"
            if os.path.exists(od + ".done"): continue
            shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
            np, n, k = r["quick"]
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda i: check.gen(r, od, i, check.seed_for(1, pid, j, i), n, k), range(np)))
            open(od + ".done", "w")

def prepare(w):
    d = f"{MB}/w{w}"
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(d + "/repo", ignore_errors=True); os.makedirs(d + "/repo")
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}/repo", shell=True, check=True)
    for c in ("harness", "crypto-harness"):
        shutil.rmtree(f"{d}/{c}", ignore_errors=True)
        shutil.copytree(f"{ROOT}/{c}", f"{d}/{c}")
        p = f"{d}/{c}/Cargo.toml"; s = open(p).read(); open(p, "w").write(s.replace('"/repo/', f'"{d}/repo/'))
    return d

def build(d, crate):
    e = dict(ENV, CARGO_TARGET_DIR=d + "/target", CARGO_BUILD_JOBS=os.environ.get("JOBS", "3"))
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=f"{d}/{crate}", env=e, capture_output=True, text=True)
    return r.returncode == 0, r.stderr

def replay(d, pid, crate):
    for j, r in enumerate(checks.CHECKS[pid]["runs"]):
        if r["crate"] != crate: continue
        exe = f"{d}/target/release/" + {"harness": "conform", "crypto-harness": "conform-crypto"}[crate]
        od = f"{MB}/traces/{pid}/r{j}"
        ds = [f"{od}/{x}" for x in sorted(os.listdir(od))]
        try:
            p = subprocess.run([exe, "--spec", r["domain"], "--property", pid, "--facets", ",".join(r["facets"]),
                            "--replays", d + "/replays"] + ds, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return "timeout"
        if p.returncode == 1: return "caught"
        if p.returncode: return "crash"
    return None

def main():
    out, workers, mx = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); prefixes = sys.argv[4:] or ["contracts/src", "lib/crypto/src"]
    traces()
    ms = []
    fs = subprocess.run(["git", "-C", "/repo", "ls-files"], capture_output=True, text=True).stdout.split()
    for f in fs:
        if f.endswith(".rs") and any(f.startswith(p) for p in prefixes) and "/instance/" not in f and not f.endswith(("lib.rs", "test_helpers.rs")):
            ms += mutants("/repo/" + f, f)
    random.Random(int(os.environ.get("MSEED", "7"))).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            m = json.loads(l); done.add((m["file"], m["line"], m["new"]))
    ms = [m for m in ms if (m["file"], m["line"], m["new"]) not in done][:mx]
    print(len(ms), "mutants", flush=True)
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock()
    def work(w):
        d = prepare(w)
        for c in ("harness", "crypto-harness"):
            ok, err = build(d, c)
            assert ok, err
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            p = f"{d}/repo/{m['file']}"
            orig = open(p).read()
            L = orig.split("\n"); L[m["line"] - 1] = m["new"]; open(p, "w").write("\n".join(L))
            crate = "harness" if m["file"].startswith("contracts") else "crypto-harness"
            ok, err = build(d, crate)
            if ok:
                m["caught"] = {}
                for pid, c in checks.CHECKS.items():
                    if any(r["crate"] == crate for r in c["runs"]):
                        x = replay(d, pid, crate)
                        if x: m["caught"][pid] = x
                m["ok"] = True
            else:
                m["ok"] = False
            open(p, "w").write(orig)
            with lock:
                open(out, "a").write(json.dumps(m) + "\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]

if __name__ == "__main__":
    main()
