// The simulator for asynchronous JavaScript: one event queue with simulated time; every choice is numbered
// in a named stream with 0 as the plain value, exactly as in the C++ runtime, and so are the replay files.
const fs = require('fs');
const STREAM = { cfg: 0, work: 1, sched: 2, time: 5 };
class Violation extends Error { constructor(kind, msg) { super(msg); this.kind = kind; } }
class Rng { constructor(a, b) { this.s = [a >>> 0 || 1, b >>> 0 || 2, 0x9e3779b9, 0x243f6a88]; for (let i = 0; i < 12; i++) this.next(); }
    next() { const s = this.s; let t = s[3]; let x = s[0]; s[3] = s[2]; s[2] = s[1]; s[1] = x; t ^= t << 11; t ^= t >>> 8; s[0] = (t ^ x ^ (x >>> 19)) >>> 0; return s[0]; } }
class Sim {
    constructor(seed, run, replay, verbose) {
        this.now = 0; this.q = []; this.seq = 0; this.steps = 0; this.h1 = 0x811c9dc5; this.h2 = 0x1b873593; this.verbose = verbose; this.replay = replay; this.deltas = []; this.trace = []; this.idx = {}; this.faults = {}; this.probes = {}; this.nontriv = false; this.sampleText = ''; this.rng = {}; this.failure = null; this.rates = {};
        for (const k in STREAM) { this.idx[k] = 0; this.rng[k] = new Rng(Math.imul(seed, 2654435761) ^ Math.imul(run + 1, 40503), (run * 7919 + STREAM[k] * 104729 + seed) | 0); }
    }
    mix(v) { this.h1 = Math.imul(this.h1 ^ v, 0x01000193) >>> 0; this.h2 = (Math.imul(this.h2, 33) + v + (this.h2 >>> 15)) >>> 0; }
    hash() { return this.h1.toString(16).padStart(8, '0') + this.h2.toString(16).padStart(8, '0'); }
    choose(stream, n) {
        const i = this.idx[stream]++; let v;
        if (this.replay) v = n > 0 ? (this.replay.get(STREAM[stream] + ' ' + i) || 0) % n : 0;
        else { v = n > 1 ? this.rng[stream].next() % n : 0; if (v) this.deltas.push([STREAM[stream], i, v]); }
        this.mix(STREAM[stream] * 1000003 + v); return v;
    }
    cfg(n) { return this.choose('cfg', n); } work(n) { return this.choose('work', n); } time(n) { return this.choose('time', n); }
    rate(kind, per1024) { this.rates[kind] = per1024; }
    fault(kind) { const r = this.rates[kind] || 0; if (!r) return false; const hit = this.choose('sched', 1024) > 1024 - r - 1 && r > 0; if (hit) this.faults[kind] = (this.faults[kind] || 0) + 1; return hit; }
    probe(k) { this.probes[k] = (this.probes[k] || 0) + 1; }
    note(...a) { if (this.verbose) this.trace.push((this.now).toFixed(3).padStart(12) + 'ms ' + a.join(' ')); }
    fail(kind, msg) { if (!this.failure) { this.failure = { kind, msg }; this.note('VIOLATION ' + kind + ': ' + msg); } throw new Violation(kind, msg); }
    at(delay, name, fn) { const e = { t: this.now + Math.max(0, delay), n: this.seq++, name, fn, dead: false }; this.q.push(e); return e; }
    async drain() { await new Promise(r => setImmediate(r)); }
    // runs until nothing is left to happen before the given time
    async until(end) {
        for (;;) {
            if (this.failure) return;
            let best = null, bi = -1; for (let i = 0; i < this.q.length; i++) { const e = this.q[i]; if (!best || e.t < best.t || (e.t === best.t && e.n < best.n)) { best = e; bi = i; } }
            if (!best || best.t > end) { this.now = Math.max(this.now, end); return; }
            this.q.splice(bi, 1); if (best.dead) continue;
            this.now = best.t; if (++this.steps > 20000) { try { this.fail('livelock', 'events do not come to an end'); } catch (e) { return; } }
            this.mix(best.n & 0xffff); for (let i = 0; i < best.name.length; i++) this.mix(best.name.charCodeAt(i));
            try { best.fn(); } catch (e) { if (!(e instanceof Violation)) this.failure = this.failure || { kind: 'exception', msg: best.name + ': ' + (e && e.stack || e) }; return; }
            await this.drain();
        }
    }
}
async function main(scenarios) {
    const a = process.argv.slice(2), o = { seed: 1, first: 0, stride: 1, count: 100, time: 1e9, keep: 1, only: '' };
    for (let i = 0; i < a.length; i++) { const k = a[i].replace(/^--/, ''); if (k === 'record' || k === 'verbose') o[k] = true; else if (k === 'only' || k === 'scenario' || k === 'replay' || k === 'hashes' || k === 'out') o[k] = a[++i]; else o[k] = Number(a[++i]); }
    let current = null; process.on('unhandledRejection', e => { if (current && !current.failure && !(e instanceof Violation)) current.failure = { kind: 'unhandled', msg: 'a promise is rejected and nobody looks: ' + (e && e.message || e) }; });
    const names = Object.keys(scenarios).filter(n => !o.only || o.only.split(',').includes(n));
    async function one(seed, run, name, replay, verbose) {
        const s = new Sim(seed, run, replay, verbose); current = s; let err = null;
        try { await scenarios[name](s, o.out); await s.drain(); } catch (e) { if (!(e instanceof Violation)) err = e; }
        if (err && !s.failure) return { j: { run, status: 3, kind: '', scenario: name, hash: '', steps: s.steps, switches: s.steps, sim_ns: 0, sample: '', msg: String(err.stack || err).slice(0, 600) }, s };
        return { j: { run, status: s.failure ? 2 : 1, kind: s.failure ? s.failure.kind : '', scenario: name, hash: s.hash(), steps: s.steps, switches: s.steps, sim_ns: Math.round(s.now * 1e6), sample: s.sampleText, msg: s.failure ? s.failure.msg.slice(0, 1500) : '' }, s };
    }
    const put = x => process.stdout.write(x + '\n');
    if (o.replay) {
        const head = {}, m = new Map(); for (const l of fs.readFileSync(o.replay, 'utf8').split('\n')) { const w = l.split(' '); if (w[0] === 'd') m.set(w[1] + ' ' + w[2], Number(w[3])); else if (w[0] && w[0][0] !== '#') head[w[0]] = w.slice(1).join(' '); }
        const r = await one(Number(head.seed), Number(head.run), head.scenario, m, o.verbose); put(JSON.stringify(r.j)); for (const t of r.s.trace) put(t); process.exit(0);
    }
    if (o.run !== undefined) { const r = await one(o.seed, o.run, o.scenario, null, o.verbose); put(JSON.stringify(r.j)); if (o.record) for (const d of r.s.deltas) put('d ' + d.join(' ')); for (const t of r.s.trace) put(t); process.exit(0); }
    const t0 = Date.now(), st = { stats: 1, runs: 0, nontrivial: 0, steps: 0, switches: 0, accesses: 0, sim_ns: 0, max_threads: 1, det_checked: 0, det_bad: 0, wall_s: 0, slow_s: 0, slow_run: 0, faults: {}, probes: {}, scenarios: {} };
    let kept = 0, hf = o.hashes && o.hashes !== '/dev/null' ? fs.openSync(o.hashes, 'w') : -1, samples = 0;
    for (let i = 0, run = o.first; i < o.count && (Date.now() - t0) / 1000 < o.time; i++, run += o.stride) {
        const name = names[run % names.length]; const r = await one(o.seed, run, name, null, false); st.runs++; st.steps += r.s.steps; st.switches += r.s.steps; st.sim_ns += r.j.sim_ns; st.scenarios[name] = (st.scenarios[name] || 0) + 1; if (r.s.nontriv) st.nontrivial++;
        for (const k in r.s.faults) { const f = st.faults[k] = st.faults[k] || [0, 0]; f[0] += r.s.faults[k]; f[1]++; } for (const k in r.s.probes) st.probes[k] = (st.probes[k] || 0) + r.s.probes[k];
        if (hf >= 0) { const b = Buffer.alloc(16); b.writeUInt32LE(r.s.h1, 0); b.writeUInt32LE(r.s.h2, 4); b.writeUInt32LE(r.s.nontriv ? 1 : 0, 8); fs.writeSync(hf, b); }
        if (i % 97 === 3) { const q = await one(o.seed, run, name, null, false); st.det_checked++; if (q.j.hash !== r.j.hash) { st.det_bad++; put(JSON.stringify({ nondeterministic_run: run })); } }
        if (r.j.status !== 1) { put(JSON.stringify(r.j)); if (++kept >= o.keep || r.j.status === 3) break; } else if (samples++ < 2) put(JSON.stringify(r.j));
    }
    st.wall_s = (Date.now() - t0) / 1000; if (hf >= 0) fs.closeSync(hf); put(JSON.stringify(st)); process.exit(0);
}
module.exports = { main, Violation };
