// Replays traces in the WebAssembly build of the replayer; same command line
// and exit codes as the native one, plus --wasm FILE.
import fs from 'node:fs';
import path from 'node:path';
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';

function runTraces({ wasm, spec, facets, files }, report) {
  const module = new WebAssembly.Module(fs.readFileSync(wasm));
  let inst = null;
  const text = (x) => Buffer.from(x.memory.buffer, x.out_ptr() >>> 0, x.out_len() >>> 0).toString();
  for (const [i, file] of files) {
    // A fresh instance every so often, and after a trap.
    if (!inst || inst.uses++ > 50) inst = { x: new WebAssembly.Instance(module, {}).exports, uses: 0 };
    const x = inst.x;
    const data = Buffer.from(spec + '\n' + facets + '\n' + fs.readFileSync(file, 'utf8'));
    const p = x.space(data.length) >>> 0;
    Buffer.from(x.memory.buffer, p, data.length).set(data);
    report({ start: i });
    try {
      x.replay(p, data.length);
      report({ i, ok: JSON.parse(text(x)) });
    } catch (e) {
      let why = String(e);
      try { why = text(x) || why; } catch (_) { /* memory exhausted */ }
      report({ i, trap: why, step: x.at() });
      inst = null;
    }
  }
}

if (!isMainThread) {
  runTraces(workerData, (m) => parentPort.postMessage(m));
} else {
  const o = { facets: '', replays: '.' };
  const dirs = [];
  for (let a = process.argv.slice(2); a.length;) {
    const k = a.shift();
    if (k.startsWith('--')) o[k.slice(2)] = a.shift(); else dirs.push(k);
  }
  let files = [];
  for (const d of dirs) {
    if (fs.statSync(d).isDirectory()) {
      files.push(...fs.readdirSync(d).filter((f) => f.endsWith('.itf.json')).sort().map((f) => path.join(d, f)));
    } else files.push(d);
  }
  if (!files.length) { console.error('no traces'); process.exit(2); }
  const N = 8;
  const rep = { traces: 0, steps: 0, accepted: 0, rejected: 0, comparisons: 0, per_op: {}, outside_property: {}, broken: [], target: 'wasm32-unknown-unknown' };
  const failures = [];
  const busy = new Map();
  const fail = (i, f) => failures.push([i, f]);
  function finish() {
    failures.sort((a, b) => a[1].step - b[1].step || a[0] - b[0]);
    rep.failures = failures.length;
    if (o.report) fs.writeFileSync(o.report, JSON.stringify(rep, null, 1));
    if (failures.length) {
      const [i, f] = failures[0];
      const t = JSON.parse(fs.readFileSync(files[i], 'utf8'));
      if (f.step) t.states = t.states.slice(0, f.step + 1);
      t.violation = { ...f, spec: o.spec, target: 'wasm32-unknown-unknown' };
      fs.mkdirSync(o.replays, { recursive: true });
      const out = path.join(o.replays, `${o.property}.itf.json`);
      fs.writeFileSync(out, JSON.stringify(t));
      console.log(`wasm: step ${f.step}: ${f.facet}: ${f.detail}`);
      console.log(`VIOLATION property=${o.property} replay=${out}`);
      process.exit(1);
    }
    if (rep.broken.length) { console.error('harness failure: ' + rep.broken[0]); process.exit(2); }
    process.exit(0);
  }
  let left = N;
  for (let w = 0; w < N; w++) {
    const mine = files.map((f, i) => [i, f]).filter(([i]) => i % N === w);
    const wk = new Worker(new URL(import.meta.url), {
      workerData: { wasm: o.wasm, spec: o.spec, facets: o.facets, files: mine },
      resourceLimits: { stackSizeMb: 64 },
    });
    wk.on('message', (m) => {
      if ('start' in m) { busy.set(w, [Date.now(), m.start]); return; }
      busy.delete(w);
      rep.traces++;
      if (m.trap !== undefined) {
        if (m.trap.includes('harness:')) rep.broken.push(`${files[m.i]}: ${m.trap}`);
        else fail(m.i, { step: m.step, facet: 'outcome:trap', detail: m.trap });
        return;
      }
      const r = m.ok;
      for (const k of ['steps', 'accepted', 'rejected', 'comparisons']) rep[k] += r[k];
      for (const [k, [a, b]] of Object.entries(r.per_op)) {
        const e = (rep.per_op[k] ??= [0, 0]);
        e[0] += a; e[1] += b;
      }
      for (const [k, n] of Object.entries(r.outside_property)) rep.outside_property[k] = (rep.outside_property[k] ?? 0) + n;
      if (r.failure) fail(m.i, r.failure);
    });
    wk.on('error', (e) => { rep.broken.push('worker: ' + e); });
    wk.on('exit', () => { if (--left === 0) finish(); });
  }
  setInterval(() => {
    for (const [, [t, i]] of busy) {
      if (Date.now() - t > 90000) { fail(i, { step: 0, facet: 'outcome:endless', detail: 'a call of this behaviour does not end' }); finish(); }
    }
  }, 1000).unref();
}
