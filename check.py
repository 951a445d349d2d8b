#!/usr/bin/env python3
"""Decides one property: check.py <ID>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. rebuilds the replay harness against /repo's working tree,
2. model-checks the specification's small instance with TLC (exhaustively),
3. generates behaviours of the specification with the Quint simulator, which
   evaluates the invariants on every state,
4. replays every behaviour into the real code and compares outcome, result,
   revert data, logs and the whole projected state after each step.

exit 0 held / 1 VIOLATION line printed / 2 the check itself failed
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import checks, export_tla

TARGET = os.path.join(ROOT, "target")
WASM = "wasm32-unknown-unknown"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-09-05", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENV["PATH"] = ENV.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin:/root/.cargo/bin"

class CheckError(Exception):
    pass

def repo_hash():
    h = hashlib.sha256()
    for top in ("contracts", "contracts-proc", "lib/crypto", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            h.update(open(p, "rb").read()); continue
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    fp = os.path.join(d, f)
                    h.update(fp.encode()); h.update(open(fp, "rb").read())
    return h.hexdigest()

def build(crate):
    """Builds a harness crate against /repo's current working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock-verif"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cwd = os.path.join(ROOT, crate)
        stamp = os.path.join(TARGET, f".repo-{crate}")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != h:
            # never rely on file times to notice a change
            for p in ("openzeppelin-stylus", "openzeppelin-stylus-proc", "openzeppelin-crypto"):
                subprocess.run(["cargo", "clean", "--offline", "--release", "-p", p] +
                               (["--target", WASM] if crate == "crypto-wasm" else []),
                               cwd=cwd, env=ENV, capture_output=True)
        cmd = ["cargo", "build", "--release", "--offline", "--locked"]
        if crate == "crypto-wasm":
            cmd += ["--target", WASM]
        r = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("build failed\n" + r.stderr[-4000:])
        open(stamp, "w").write(h)

def tlc(spec, module, inv, heap="4g", workers=4):
    name = f"{spec}_{module}"
    path = os.path.join(ROOT, "spec", "tla", name + ".tla")
    if not os.path.exists(path) or export_tla.spec_hash(spec) not in open(path).readline():
        raise CheckError(f"{name}.tla is not the export of the current {spec}.qnt: run tools/export_tla.py")
    meta = tempfile.mkdtemp(prefix="tlc_")
    try:
        r = subprocess.run(["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", tla_classpath(), "tlc2.TLC",
                            "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                            "-config", name + ".cfg", name + ".tla"],
                           cwd=os.path.dirname(path), capture_output=True, text=True, env=ENV)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
    if r.returncode or not m:
        raise CheckError(f"TLC on {name}: the specification violates {inv}\n" + r.stdout[-3000:] + r.stderr[-500:])
    d = re.search(r"depth of the complete state graph search is (\d+)", r.stdout)
    return dict(instance=name, invariant=inv, generated=int(m[-1][0]), distinct=int(m[-1][1]),
                depth=int(d.group(1)) if d else None, exhaustive=True)

def tla_classpath():
    d = "/opt/veriftools/tla"
    jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
    jars.sort(key=lambda p: not p.endswith("tla2tools.jar"))
    return ":".join(jars)

def gen(run, outdir, i, seed, n, k):
    d = os.path.join(outdir, f"p{i}"); os.makedirs(d)
    cmd = ["quint", "run", "--main", run["main"], "--init", run["init"], "--step", run["step"], "--invariant",
           run["inv"], "--n-traces", str(n), "--max-samples", str(n), "--max-steps", str(k), "--seed", str(seed),
           "--out-itf", os.path.join(d, "t_{seq}.itf.json"), "--verbosity", "1",
           os.path.join(ROOT, "spec", run["spec"] + ".qnt")]
    r = subprocess.run(cmd, cwd=outdir, capture_output=True, text=True, env=ENV)
    if r.returncode:
        raise CheckError(f"quint run {run['spec']} (seed {seed}) failed: a generated state violates {run['inv']}, "
                         f"or the specification is broken\n" + r.stdout[-3000:] + r.stderr[-3000:])
    return d

def seed_for(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:4], "big") % 2**31

def decide(pid, tier, seed):
    t0 = time.time()
    c = checks.CHECKS[pid]
    work = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    replays = os.path.join(ROOT, "replays")
    try:
        with ThreadPoolExecutor(24) as ex:
            builds = [ex.submit(build, cr) for cr in sorted({r["crate"] for r in c["runs"]} |
                                                            {"crypto-wasm" for r in c["runs"] if r["wasm"]})]
            gens = []
            procs = ThreadPoolExecutor(8)
            for j, r in enumerate(c["runs"]):
                np, n, k = r[tier]
                od = os.path.join(work, f"r{j}"); os.makedirs(od)
                gens.append([procs.submit(gen, r, od, i, seed_for(seed, pid, j, i), n, k) for i in range(np)])
            insts = c["tlc"] + (c["tlc_thorough"] if tier == "thorough" else [])
            tl = [procs.submit(tlc, *x) for x in insts]
            for b in builds: b.result()
            dirs = [[g.result() for g in gs] for gs in gens]
            tlcs = [t.result() for t in tl]
        reports, viol, broken = [], [], []
        for j, r in enumerate(c["runs"]):
            rep = os.path.join(work, f"report{j}.json")
            exe = os.path.join(TARGET, "release", {"harness": "conform", "crypto-harness": "conform-crypto"}[r["crate"]])
            p = subprocess.run([exe, "--spec", r["domain"], "--property", pid, "--facets", ",".join(r["facets"]),
                                "--report", rep, "--replays", replays] + dirs[j],
                               capture_output=True, text=True, env=ENV)
            if os.path.exists(rep):
                reports.append(dict(spec=r["spec"], module=r["main"], replayed_into=r["domain"], **json.load(open(rep))))
            if p.returncode == 1:
                viol.append(p.stdout)
            elif p.returncode < 0:
                v = crashed(exe, r, pid, replays, dirs[j])
                (viol if v else broken).append(v or f"replay of {r['spec']} ended by signal {-p.returncode}")
            elif p.returncode:
                broken.append(f"replay of {r['spec']} failed\n" + p.stdout[-2000:] + p.stderr[-3000:])
            if r["wasm"]:
                rep = os.path.join(work, f"report{j}w.json")
                p = subprocess.run(["node", os.path.join(ROOT, "crypto-wasm", "run.mjs"), "--wasm",
                                    os.path.join(TARGET, WASM, "release", "crypto_wasm.wasm"), "--spec", r["domain"],
                                    "--property", pid, "--facets", ",".join(r["facets"]), "--report", rep,
                                    "--replays", replays] + dirs[j], capture_output=True, text=True, env=ENV)
                if os.path.exists(rep):
                    reports.append(dict(spec=r["spec"], module=r["main"], replayed_into=r["domain"] + " (wasm)",
                                        **json.load(open(rep))))
                if p.returncode == 1:
                    viol.append(p.stdout)
                elif p.returncode:
                    broken.append(f"wasm replay of {r['spec']} failed\n" + p.stdout[-2000:] + p.stderr[-3000:])
        samples = []
        for j, r in enumerate(c["runs"]):
            f = os.path.join(dirs[j][0], "t_0.itf.json")
            if not os.path.exists(f):
                fs = sorted(os.listdir(dirs[j][0])); f = os.path.join(dirs[j][0], fs[0])
            st = json.load(open(f))["states"]
            ob = lambda s: next(v for k, v in s.items() if k.endswith("obs"))
            samples.append(dict(spec=r["spec"], calls=[
                {k: ob(s).get(k) for k in ("op", "by", "args", "errs")} for s in st[1:6]]))
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(
                      states=sum(x["distinct"] for x in tlcs) + sum(x.get("distinct_states", 0) for x in reports),
                      transitions=sum(x["generated"] for x in tlcs) + sum(x.get("distinct_transitions", 0) for x in reports),
                      traces_validated_against_impl=sum(x["traces"] for x in reports),
                      model=tlcs, conformance=reports, samples=samples,
                      exhaustive=False,
                      explanation="states/transitions: distinct states and transitions of the small instances explored "
                                  "exhaustively by TLC plus those on the replayed full-width behaviours; every "
                                  "behaviour was executed on the real code and compared after each step"),
                  assumptions=["the host emulator in harness/src/host.rs behaves like the Stylus VM for the hooks used"],
                  wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
        for line in known_findings(pid):
            print(line)
        if viol:
            for v in viol: sys.stdout.write(v)
            return 1
        if broken:
            raise CheckError("\n".join(broken))
        print(f"{pid}: held on {ev['coverage']['traces_validated_against_impl']} behaviours, "
              f"{sum(x['steps'] for x in reports)} steps, {ev['coverage']['states']} states ({ev['wall_s']} s)")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def crashed(exe, r, pid, replays, dirs):
    """The replayer was killed (stack overflow, abort): find the behaviour that does it."""
    fs = [os.path.join(d, f) for d in dirs for f in sorted(os.listdir(d)) if f.endswith(".itf.json")]
    def one(i):
        return subprocess.run([exe, "--spec", r["domain"], "--property", pid, "--facets", ",".join(r["facets"]),
                               "--only", str(i), "--replays", replays] + dirs, capture_output=True, env=ENV).returncode
    with ThreadPoolExecutor(4) as ex:
        for i, rc in enumerate(ex.map(one, range(len(fs)))):
            if rc < 0:
                t = json.load(open(fs[i])); t.setdefault("variant", i)
                t["violation"] = dict(detail=f"a call brings the program down (signal {-rc})", spec=r["spec"])
                os.makedirs(replays, exist_ok=True)
                path = os.path.join(replays, f"{pid}.itf.json")
                json.dump(t, open(path, "w"))
                return f"a call brings the program down (signal {-rc})\nVIOLATION property={pid} replay={path}\n"
    return None

def known_findings(pid):
    p = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(p): return []
    return [l.strip() for l in open(p) if l.startswith(f"KNOWN-FINDING: property={pid} ")]

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        sys.exit(decide(pid, tier, seed))
    except CheckError as e:
        print(f"CHECK-ERROR property={pid}: {e}", file=sys.stderr)
        sys.exit(2)
