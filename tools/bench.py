#!/usr/bin/env python3
"""Development aid: bench.py BUGS.py OUT WORKERS.  BUGS.py defines BUGS, a list of
(name, [(file, old, new), ...]).  Each is applied to a scratch copy of the
repository (never /repo), the replayers are rebuilt against it, and the quick
tier's behaviours of every check are replayed; prints who reports it."""
import json, os, queue, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate, check, checks

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    out, workers = sys.argv[2], int(sys.argv[3])
    done = {json.loads(l)["name"] for l in open(out)} if os.path.exists(out) else set()
    bugs = [b for b in ns["BUGS"] if b[0] not in done]
    for name, edits in bugs:
        for f, old, new in edits:
            t = open("/repo/" + f).read()
            assert t.count(old) == 1, (name, f, t.count(old))
    mutate.traces()
    q = queue.Queue(); [q.put(b) for b in bugs]
    lock = threading.Lock()
    def work(w):
        d = mutate.prepare(f"b{w}")
        for c in ("harness", "crypto-harness"):
            ok, err = mutate.build(d, c)
            assert ok, err
        while True:
            try: name, edits = q.get_nowait()
            except queue.Empty: return
            orig = {}
            for f, old, new in edits:
                p = f"{d}/repo/{f}"
                t = open(p).read(); orig.setdefault(p, t); open(p, "w").write(t.replace(old, new))
            r = {"name": name, "caught": {}}
            for crate in ("harness", "crypto-harness"):
                if crate == "harness" and not any(e[0].startswith("contracts") for e in edits): continue
                if crate == "crypto-harness" and not any(e[0].startswith("lib/crypto") for e in edits): continue
                ok, err = mutate.build(d, crate)
                if not ok:
                    r["broken"] = err[-1500:]; break
                for pid, c in checks.CHECKS.items():
                    if any(x["crate"] == crate for x in c["runs"]):
                        x = mutate.replay(d, pid, crate)
                        if x: r["caught"][pid] = x
            for p, t in orig.items(): open(p, "w").write(t)
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
                print(name, "BROKEN " + r["broken"] if "broken" in r else r["caught"] or "SURVIVES", flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
