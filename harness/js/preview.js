// C27: the editor extension's live preview.  The real extension code runs; the editor, the diagram tool's
// processes, the file system and the timers are simulated.
const fs0 = require('fs'), vm = require('vm'), util = require('util'), path = require('path'), EventEmitter = require('events');
const { main, Violation } = require('./sim.js');
let compiled = null;
function load(out) {
    if (compiled) return compiled; compiled = {};
    const m = JSON.parse(fs0.readFileSync(path.join(out, 'preview.modules.json'), 'utf8'));
    for (const k in m) compiled[k] = vm.compileFunction(m[k], ['exports', 'require', 'module', '__filename', '__dirname', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'Date', 'console', 'performance'], { filename: k + '.js' });
    return compiled;
}
const NAMES = ['/ws/src/graph.cpp', '/ws/other/graph.cpp', '/ws/my graphs/rx chain.cpp', "/ws/it's/a.cpp", '/ws/odd"name.cpp', '/ws/$HOME/tx.cpp', '/ws/`id`/x.cpp', '/ws/a&b;c.cc'];
const TMP = '/tmp', HOME = '/home/u';
async function preview(s, out) {
    const mods = load(out), files = new Map(), dirs = new Set(['/', TMP, HOME]), docs = [], watchers = { save: new Set(), change: new Set(), other: new Set() };
    const cfg = { autoUpdate: true, updateDelay: 500, toolPath: '' }; const calls = { error: [], warn: [], show: [] };
    let active = true, runs = 0, running = 0, lastStart = -1, started = [], requests = [], logs = 0, shown = null, activeEditor, quietStarts = null;
    let lastFault = -1; const fault = k => { const hit = active && s.fault(k); if (hit) lastFault = s.now; return hit; };
    // ---- the machine
    const where = s.cfg(6); const tool = { conf: '/opt/cler/cler-mermaid', ws: '/ws/tools/mermaid/build/cler-mermaid', path: '/usr/bin/cler-mermaid', home: HOME + '/.local/bin/cler-mermaid', local: '/usr/local/bin/cler-mermaid' };
    const keys = ['conf', 'ws', 'path', 'home', 'local']; const have = where < 5 ? keys.filter((k, i) => i === where || (i > where && s.cfg(3) === 1)) : [];
    for (const k of have) files.set(tool[k], { data: 'ELF', m: 0 }); if (where === 0 || s.cfg(2)) cfg.toolPath = tool.conf;
    const nd = 1 + s.cfg(3); const order = NAMES.slice(); for (let i = 0; i < nd; i++) { const n = order.splice(s.cfg(order.length), 1)[0]; docs.push({ fileName: n, languageId: 'cpp', isDirty: false, version: 1, uri: uri(n), getText: () => 'memory', isUntitled: false, v: 1, kind: 'flow', saves: 0, opens: 0, changes: 0, runs: 0 }); }
    if (s.cfg(4) === 0 && nd > 1) { docs[0].fileName = NAMES[0]; docs[1].fileName = NAMES[1]; for (const d of docs) d.uri = uri(d.fileName); if (nd > 2 && docs[2].fileName !== NAMES[2]) { docs[2].fileName = NAMES[2]; docs[2].uri = uri(NAMES[2]); } }
    const py = { fileName: '/ws/tool.py', languageId: 'python', uri: uri('/ws/tool.py'), getText: () => '' };
    cfg.updateDelay = [500, 100, 1000, 0][s.cfg(4)];
    const disk = d => files.set(d.fileName, { data: JSON.stringify({ src: d.fileName, v: d.v, kind: d.kind }), m: d.saved = s.now }); docs.forEach(disk);
    function uri(p) { return { fsPath: p, path: p, scheme: 'file', toString: () => 'file://' + p, with() { return this; } }; }
    function err(code, msg) { return Object.assign(new Error(code + ': ' + msg), { code }); }
    const F = {
        existsSync: p => files.has(String(p)) || dirs.has(String(p)),
        mkdirSync: (p, o) => { if (fault('disk_error')) throw err('ENOSPC', 'mkdir ' + p); if (dirs.has(p)) { if (o && o.recursive) return; throw err('EEXIST', p); } let q = p; const add = []; while (!dirs.has(q) && q !== '/' && q !== '.') { add.push(q); q = path.dirname(q); } if (add.length > 1 && !(o && o.recursive)) throw err('ENOENT', p); add.forEach(x => dirs.add(x)); return p; },
        statSync: (p, o) => { if (!files.has(p) && !dirs.has(p)) { if (o && o.throwIfNoEntry === false) return undefined; throw err('ENOENT', 'stat ' + p); } const f = files.get(p); return { mtimeMs: f ? f.m : 0, mtime: new Date(f ? f.m : 0), size: f ? f.data.length : 0, isFile: () => !!f, isDirectory: () => !f }; },
        readFileSync: p => { if (!files.has(p)) throw err('ENOENT', 'open ' + p); return files.get(p).data; },
        writeFileSync: (p, d) => { if (fault('disk_error')) throw err('ENOSPC', 'write ' + p); if (!dirs.has(path.dirname(p))) throw err('ENOENT', p); files.set(p, { data: String(d), m: s.now }); },
        unlinkSync: p => { if (!files.delete(p)) throw err('ENOENT', 'unlink ' + p); },
        rmSync: (p, o) => { let hit = files.delete(p); if (dirs.has(p) && o && o.recursive) { hit = true; dirs.delete(p); for (const k of [...files.keys()]) if (k.startsWith(p + '/')) files.delete(k); } if (!hit && !(o && o.force)) throw err('ENOENT', 'rm ' + p); },
        renameSync: (a, b) => { if (fault('disk_error')) throw err('EIO', 'rename ' + a); if (!files.has(a)) throw err('ENOENT', 'rename ' + a); files.set(b, files.get(a)); files.delete(a); },
        copyFileSync: (a, b) => { if (!files.has(a)) throw err('ENOENT', 'copy ' + a); files.set(b, { data: files.get(a).data, m: s.now }); },
        mkdtempSync: p => { const q = p + 'Ab3xY' + s.seq; dirs.add(q); return q; }, accessSync: p => { if (!F.existsSync(p)) throw err('ENOENT', 'access ' + p); }, readdirSync: p => [...files.keys()].filter(k => path.dirname(k) === p).map(k => path.basename(k)), realpathSync: p => p, constants: { X_OK: 1, F_OK: 0, R_OK: 4 },
    };
    F.promises = {}; for (const k of Object.keys(F)) if (k.endsWith('Sync')) F.promises[k.slice(0, -4)] = (...a) => new Promise((ok, no) => s.at(1 + s.time(4), 'fs', () => { try { ok(F[k](...a)); } catch (e) { no(e); } }));
    // ---- processes
    function shell(cmd) {       // the words a POSIX shell makes of a command line
        const w = []; let cur = null, i = 0; const dollar = q => { if (cmd[i] === '`' || cmd.startsWith('$(', i)) s.fail('shell', 'part of a file name is run as a command: ' + cmd); const m = /^\$(\w+|\{\w+\})/.exec(cmd.slice(i)); if (!m) return false; i += m[0].length; cur = (cur || '') + (m[1] === 'HOME' ? HOME : ''); return true; };
        while (i < cmd.length) {
            const c = cmd[i];
            if (c === "'") { const e = cmd.indexOf("'", i + 1); if (e < 0) return null; cur = (cur || '') + cmd.slice(i + 1, e); i = e + 1; }
            else if (c === '"') { cur = cur || ''; i++; while (i < cmd.length && cmd[i] !== '"') { if (cmd[i] === '\\' && '"\\$`'.includes(cmd[i + 1])) { cur += cmd[i + 1]; i += 2; } else if ((cmd[i] === '$' || cmd[i] === '`') && dollar(true)) { } else cur += cmd[i++]; } if (i >= cmd.length) return null; i++; }
            else if (c === '\\') { cur = (cur || '') + (cmd[i + 1] || ''); i += 2; }
            else if (/\s/.test(c)) { if (cur !== null) w.push(cur); cur = null; i++; }
            else if (c === '$' || c === '`') { if (!dollar(false)) { cur = (cur || '') + c; i++; } }
            else if (';&|<>'.includes(c)) { if (cmd.startsWith('2>/dev/null', i) || cmd.startsWith('>/dev/null', i)) { i += 11; continue; } s.fail('shell', 'part of a file name is run as a command: ' + cmd); }
            else { cur = (cur || '') + c; i++; }
        }
        if (cur !== null) w.push(cur); return w;
    }
    const fails = [];      // tool runs that went wrong through a fault: [source, time]
    function launch(argv, o, viaShell, done) {
        o = o || {}; const t0 = s.now; let over = false;
        const end = (e, so, se) => { if (over) return; over = true; if (e) { e.killed = !!e.killed; e.cmd = argv ? argv.join(' ') : ''; e.stdout = so || ''; e.stderr = se || ''; } done(e, so || '', se || ''); };
        const fin = (code, so, se, sig) => { const e = code === 0 ? null : Object.assign(new Error('Command failed: ' + (argv || []).join(' ') + '\n' + (se || '')), { code: code === undefined ? null : code, signal: sig || null, killed: !!sig }); end(e, so, se); };
        if (!argv) { s.at(2, 'sh', () => fin(2, '', 'sh: unterminated quoted string')); return; }
        const cmd = argv[0];
        if (cmd === 'which' || (cmd === 'command' && argv[1] === '-v') || (cmd === 'where')) { const bad = fault('which_error'); s.at(1 + s.time(15), 'which', () => have.includes('path') && !bad ? fin(0, tool.path + '\n') : fin(1)); return; }
        runs++; running++; lastStart = s.now; const isTool = files.has(cmd) && Object.values(tool).includes(cmd); started.push({ t: s.now, cmd });
        const src = argv[1], oi = argv.indexOf('-o'), target = (oi > 0 ? argv[oi + 1] : '?') + '.md', doc = docs.find(d => d.fileName === src); if (doc) doc.runs++;
        s.note('tool starts on', src, '->', target);
        if (!isTool) { s.at(2, 'noent', () => { running--; viaShell ? fin(127, '', 'not found') : end(Object.assign(err('ENOENT', 'spawn ' + cmd), { errno: -2, syscall: 'spawn', path: cmd })); }); return; }
        if (cfg.toolPath && files.has(cfg.toolPath) && cmd !== cfg.toolPath) s.fail('wrong-tool', cmd + ' is run though ' + cfg.toolPath + ' is configured');
        const slow = s.time(6) === 5, d = k => 1 + s.time(slow ? 1300 : k); let dead = false;
        const bad = fault('tool_fail') ? 1 : fault('tool_hang') ? 2 : fault('tool_crash') ? 3 : 0; if (bad) fails.push({ src, t: s.now });
        if (o.timeout > 0) s.at(o.timeout, 'timeout', () => { if (over || dead) return; dead = true; running--; s.note('tool killed after', o.timeout, 'ms'); fin(undefined, '', '', o.killSignal || 'SIGTERM'); });
        const later = (ms, name, f) => s.at(ms, name, () => { if (!dead) f(); });
        later(d(30), 'read', () => {
            const f = files.get(src); if (bad === 2 && s.time(2) === 0) return;
            if (!f || !doc) { later(2, 'exit', () => { dead = true; running--; fin(1, '', '✗ ' + src + ' (exception): Cannot open file'); }); return; }
            const c = JSON.parse(f.data); if (c.kind === 'bad' || (bad === 1 && s.time(2) === 0)) { later(d(20), 'exit', () => { dead = true; running--; fin(1, '', '✗ no'); }); return; }
            if (c.kind === 'none') { later(d(20), 'exit', () => { dead = true; running--; fin(0); }); return; }
            const text = JSON.stringify({ src: c.src, v: c.v });
            later(d(40), 'write', () => {
                if (!dirs.has(path.dirname(target))) { later(1, 'exit', () => { dead = true; running--; fin(1, '', 'Cannot write file'); }); return; }
                files.set(target, { data: text.slice(0, text.length >> 1), m: s.now }); if (bad === 2) return; if (bad) { later(1, 'exit', () => { dead = true; running--; bad === 3 ? fin(undefined, '', '', 'SIGSEGV') : fin(1, '', 'Cannot write file'); }); return; }
                later(s.time(30), 'written', () => { files.set(target, { data: text, m: s.now }); s.note('tool wrote', src, 'version', c.v, '->', target); later(d(10), 'exit', () => { dead = true; running--; fin(0, 'Generated: ' + target + '\n'); }); });
            });
        });
    }
    const norm = (o, cb) => typeof o === 'function' ? [{}, o] : [o || {}, cb || (() => { })];
    const child = { on() { return child; }, kill() { return true; }, stdout: new EventEmitter(), stderr: new EventEmitter() };
    const exec = (c, o, cb) => { [o, cb] = norm(o, cb); launch(shell(String(c)), o, true, cb); return child; };
    const execFile = (f, a, o, cb) => { if (!Array.isArray(a)) { cb = o; o = a; a = []; } [o, cb] = norm(o, cb); launch(o.shell ? shell([f, ...a].join(' ')) : [f, ...a], o, !!o.shell, cb); return child; };
    exec[util.promisify.custom] = (c, o) => new Promise((ok, no) => exec(c, o || {}, (e, stdout, stderr) => e ? no(e) : ok({ stdout, stderr })));
    execFile[util.promisify.custom] = (f, a, o) => new Promise((ok, no) => execFile(f, a || [], o || {}, (e, stdout, stderr) => e ? no(e) : ok({ stdout, stderr })));
    const cp = { exec, execFile };
    // ---- the editor
    const disp = f => ({ dispose: f || (() => { }) }); const commands = new Map(); let open = 0, showAt = 0;
    const on = set => (h, self) => { const e = self ? h.bind(self) : h; set.add(e); open++; return disp(() => { if (set.delete(e)) open--; }); };
    const msg = list => (m) => { list.push({ m: String(m), t: s.now }); s.note('message:', String(m).split('\n')[0]); return new Promise(() => { }); };
    const vscode = {
        commands: { registerCommand: (n, f) => { commands.set(n, f); open++; return disp(() => { if (commands.delete(n)) open--; }); },
            executeCommand: (n, u) => new Promise((ok, no) => { const bad = fault('show_error'); const t = Math.max(showAt, s.now + 1 + s.time(60)); showAt = t; const r = /showPreview/.test(n) ? claim(u) : null; s.at(t - s.now, 'show', () => { if (bad) { fails.push({ src: '*', t: s.now }); no(new Error('command failed')); return; } if (r) display(u, r); ok(undefined); }); }) },
        window: { get activeTextEditor() { return activeEditor; }, showErrorMessage: msg(calls.error), showWarningMessage: msg(calls.warn), showInformationMessage: msg([]), createOutputChannel: () => ({ appendLine() { }, append() { }, show() { }, clear() { }, dispose() { } }), setStatusBarMessage: () => disp(), withProgress: (o, f) => f({ report() { } }, { isCancellationRequested: false, onCancellationRequested: () => disp() }), onDidChangeActiveTextEditor: on(watchers.other) },
        workspace: { onDidSaveTextDocument: on(watchers.save), onDidChangeTextDocument: on(watchers.change), onDidCloseTextDocument: on(watchers.other), onDidChangeConfiguration: on(watchers.other), onDidOpenTextDocument: on(watchers.other), getConfiguration: sec => ({ get: (k, d) => { const kk = sec ? k : k.replace(/^cler\./, ''); return cfg[kk] === undefined || cfg[kk] === '' ? (kk === 'toolPath' ? '' : d) : cfg[kk]; } }), workspaceFolders: [{ uri: uri('/ws'), name: 'ws', index: 0 }], get textDocuments() { return docs; }, getWorkspaceFolder: () => ({ uri: uri('/ws') }) },
        Uri: { file: uri, joinPath: (u, ...p) => uri(path.join(u.fsPath, ...p)), parse: x => uri(String(x).replace('file://', '')) }, ViewColumn: { One: 1, Two: 2, Beside: -2 }, ProgressLocation: { Notification: 15, Window: 10 }, Disposable: class { constructor(f) { this.f = f; } dispose() { this.f && this.f(); } static from(...d) { return disp(() => d.forEach(x => x.dispose())); } },
    };
    function parse(p) { const f = files.get(p); if (!f) return null; try { return JSON.parse(f.data); } catch (e) { return { torn: true }; } }
    // which request is answered by opening this file
    function claim(u) {
        const p = u && u.fsPath, c = p && parse(p); if (!c) s.fail('wrong-preview', 'the preview is opened on ' + p + ', which is not there'); if (c.torn) s.fail('torn-preview', 'the preview is opened on a diagram that is not whole');
        const r = requests.find(r => !r.used && r.doc.fileName === c.src); if (!r) s.fail('wrong-preview', 'the preview shows ' + c.src + ', which was not asked for; asked for: ' + requests.filter(r => !r.used).map(r => r.doc.fileName).join(', '));
        if (c.v < r.v) s.fail('stale-preview', 'the preview of ' + c.src + ' is opened with version ' + c.v + '; version ' + r.v + ' was saved when it was asked for');
        r.used = true; return r;
    }
    function display(u, r) {
        const p = u.fsPath, c = parse(p); if (!c || c.torn) s.fail('torn-preview', 'the preview is opened on a diagram that is not whole'); if (c.src !== r.doc.fileName) s.fail('wrong-preview', 'the preview of ' + r.doc.fileName + ' shows ' + c.src);
        for (const q of requests) if (q.doc === r.doc && q.id <= r.id) q.done = 'shown'; shown = { doc: r.doc, uri: p }; s.note('preview shows', c.src, 'version', c.v);
        for (const q of requests) if (!q.done && q.doc === r.doc && q.v <= c.v) q.done = 'shown'; calls.show.push({ doc: r.doc, t: s.now, id: r.id });
    }
    // ---- the extension
    const inst = {}; const timers = { set: (f, ms, ...a) => { const e = s.at((+ms || 0) + s.time(8), 'timer', () => f(...a)); e.ref = e.unref = () => e; e.hasRef = () => true; return e; }, clear: e => { if (e) e.dead = true; } };
    const every = (f, ms, ...a) => { const h = { dead: false }; const go = () => { h.e = s.at(+ms || 1, 'interval', () => { if (h.dead) return; f(...a); if (!h.dead) go(); }); }; go(); return h; };
    class SDate extends Date { constructor(...a) { a.length ? super(...a) : super(1.6e12 + s.now); } static now() { return 1.6e12 + s.now; } }
    function req(from) { return n => { n = n.replace(/^node:/, ''); if (n === 'vscode') return vscode; if (n === 'fs') return F; if (n === 'fs/promises') return F.promises; if (n === 'child_process') return cp; if (n === 'os') return { tmpdir: () => TMP, homedir: () => HOME, platform: () => 'linux', EOL: '\n' }; if (n === 'timers') return { setTimeout: timers.set, clearTimeout: timers.clear };
        if (n[0] === '.') return get(path.posix.normalize(path.posix.join(path.posix.dirname(from), n)).replace(/\.js$/, '')); if (['path', 'util', 'crypto', 'events', 'url', 'buffer', 'assert'].includes(n)) return require(n); throw new Error('module ' + n + ' is not simulated'); }; }
    function get(k) { if (inst[k]) return inst[k].exports; if (!mods[k]) throw new Error('no module ' + k); const m = inst[k] = { exports: {} }; mods[k](m.exports, req(k), m, '/ext/' + k + '.js', '/ext', timers.set, timers.clear, every, h => { if (h) h.dead = true; }, (f, ...a) => s.at(0, 'immediate', () => f(...a)), SDate, { log() { }, warn() { }, info() { }, debug() { }, error: () => logs++ }, { now: () => s.now }); return m.exports; }
    const ext = get('extension'); const context = { extensionUri: uri('/ext'), subscriptions: [], globalState: { get() { }, update() { } }, extensionPath: '/ext', asAbsolutePath: p => '/ext/' + p };
    ext.activate(context);
    if (!commands.has('cler.openPreview')) s.fail('no-command', 'the preview command is not there');
    // ---- the user
    let reqId = 0; const fire = (set, x) => { for (const h of [...set]) h(x); };
    const change = d => { d.changes++; d.version++; fire(watchers.change, { document: d, contentChanges: [{ text: 'x' }] }); };
    const U = {
        save(d, kind) { d.v++; d.kind = kind || 'flow'; if (kind) d.bad = true; d.saves++; d.isDirty = false; disk(d); s.note('user saves', d.fileName, 'version', d.v, d.kind); fire(watchers.save, d); },
        edit(d) { d.isDirty = true; s.note('user types in', d.fileName); change(d); },
        external(d) { d.v++; d.kind = 'flow'; d.isDirty = false; disk(d); s.note('another program writes', d.fileName, 'version', d.v); change(d); },
        open(d) { activeEditor = { document: d }; d.opens++; requests.push({ id: ++reqId, doc: d, v: d.v, kind: d.kind, t: s.now, done: null }); s.note('user opens the preview of', d.fileName); commands.get('cler.openPreview')(); },
        wrong() { const w = calls.warn.length, r = runs; activeEditor = s.work(2) ? { document: py } : undefined; commands.get('cler.openPreview')(); if (calls.warn.length === w && !calls.error.length) s.fail('silent', 'the preview of something else than a C++ file is asked for and nothing is said'); if (runs !== r) s.fail('wrong-preview', 'the tool runs on something else than a C++ file'); },
    };
    const gap = () => [s.time(60), 100 + s.time(500), s.time(3000), 5][s.time(4)];
    const pick = () => docs[s.work(docs.length)];
    function act(chaos) {
        const d = pick(), k = s.work(10);
        if (k === 9) U.wrong(); else if (k >= 7) U.edit(d); else if (k === 6) U.external(d); else if (k >= 4) U.open(d); else if (k === 3 && chaos && s.work(2)) U.save(d, s.work(2) ? 'none' : 'bad'); else U.save(d);
    }
    const spread = async (n, f) => { let t = 0; for (let i = 0; i < n; i++) { t += gap(); s.at(t, 'user', f); } await s.until(s.now + t); };
    const settle = async () => { await s.until(s.now + 60000); };
    const cause = r => !have.length || r.doc.bad || fails.some(f => f.src === '*' || f.src === r.doc.fileName) || Object.keys(s.faults).length > 0;
    s.sampleText = nd + ' files, tool ' + (have.join('+') || 'missing') + ', delay ' + cfg.updateDelay;
    // 1: anything happens
    const chaos = s.cfg(3) !== 0; if (chaos) { s.rate('tool_fail', s.cfg(2) ? 200 : 0); s.rate('tool_hang', s.cfg(3) === 0 ? 150 : 0); s.rate('tool_crash', s.cfg(2) ? 150 : 0); s.rate('disk_error', s.cfg(4) === 0 ? 150 : 0); s.rate('which_error', s.cfg(4) === 0 ? 200 : 0); s.rate('show_error', s.cfg(4) === 0 ? 150 : 0); s.sampleText += ', faults'; }
    await spread(1 + s.work(8), () => act(chaos)); if (s.failure) return;
    active = false; for (const k in s.rates) s.rates[k] = 0;
    if (s.cfg(3)) await settle(); if (s.failure) return;
    // 2: automatic updates switched off
    if (shown && s.cfg(4) === 0) {
        await settle(); if (s.failure) return; cfg.autoUpdate = false; const r = runs; s.at(0, 'user', () => U.save(shown.doc)); s.at(300, 'user', () => U.edit(shown.doc)); s.at(2000, 'user', () => U.external(shown.doc)); await settle(); if (s.failure) return;
        if (runs !== r) s.fail('unwanted', 'automatic updates are off and the tool is run'); cfg.autoUpdate = true; s.at(0, 'user', () => U.save(shown.doc));
    }
    // 3: no more faults; the user goes on, and what is shown in the end must be what was saved last
    const before = requests.length, err0 = calls.error.length; let last = null;
    await spread(s.work(7), () => act(false)); if (s.failure) return;
    for (const d of docs) if (d.kind !== 'flow') { s.at(0, 'user', () => U.save(d)); await s.until(s.now + 1); if (s.failure) return; }
    if (have.length && (requests.length > before ? requests[requests.length - 1].doc : shown && shown.doc)) {
        // a last save or change of the previewed file, at any moment of an update or of another file's
        const goal = () => requests.length > before ? requests[requests.length - 1].doc : shown && shown.doc;
        await s.until(s.now + [0, s.time(200), s.time(1500)][s.time(3)]); if (s.failure) return;
        const g = goal(); if (g) { s.at(0, 'user', () => s.work(3) ? U.save(g) : U.external(g)); if (docs.length > 1 && s.work(2)) { const o = docs.find(d => d !== g); s.at(s.time(cfg.updateDelay || 1), 'user', () => s.work(2) ? U.edit(o) : U.save(o)); } }
    }
    await settle(); if (s.failure) return;
    const lastReq = requests[requests.length - 1];
    for (const r of requests) if (r.id > before && !r.done) { if (!have.length) continue; if (r !== lastReq) continue; if (r.kind !== 'flow') continue; s.fail('no-answer', 'the preview of ' + r.doc.fileName + ' was asked for and is not shown' + (calls.error.length > err0 ? ': ' + calls.error[calls.error.length - 1].m : '')); }
    if (!have.length && requests.length && !calls.error.length) s.fail('silent', 'the tool is not installed and nobody is told');
    for (const r of requests) if (!r.done && r.id <= before && r === lastReq && !calls.error.length) s.fail('no-answer', 'the preview of ' + r.doc.fileName + ' was asked for; it is not shown, and no error is reported');
    if (calls.error.length && !requests.some(cause)) s.fail('refused', 'an error though nothing failed: ' + calls.error[0].m);
    if (calls.error.length > requests.length) s.fail('noisy', calls.error.length + ' error messages for ' + requests.length + ' requests');
    if (shown && have.length) {
        if (requests.length > before && lastReq.kind === 'flow' && shown.doc !== lastReq.doc) s.fail('wrong-preview', 'the preview of ' + lastReq.doc.fileName + ' was asked for last, and ' + shown.doc.fileName + ' is shown');
        const c = parse(shown.uri); if (!c || c.torn) s.fail('torn-preview', 'the diagram shown is ' + (c ? 'not whole' : 'gone'));
        if (c.src !== shown.doc.fileName) s.fail('wrong-preview', 'the preview of ' + shown.doc.fileName + ' shows ' + c.src);
        if (c.v !== shown.doc.v && lastFault < shown.doc.saved) s.fail('stale-preview', 'the preview of ' + c.src + ' shows version ' + c.v + ' a minute after version ' + shown.doc.v + ' was saved');
        s.nontriv = true;
    }
    for (const d of docs) if (d.runs > d.opens + d.saves + d.changes) s.fail('too-many-runs', 'the tool ran ' + d.runs + ' times on ' + d.fileName + ' for ' + d.opens + ' requests, ' + d.saves + ' saves and ' + d.changes + ' changes');
    if (running) s.fail('leak', running + ' processes of the tool are left to hang');
    // a file whose preview is neither shown nor being opened is no business of the tool's
    const other = docs.filter(d => d.kind === 'flow' && (!shown || d !== shown.doc) && (!lastReq || d !== lastReq.doc));
    if (other.length && s.cfg(3) === 0) { const d = other[s.work(other.length)], r = runs; s.at(0, 'user', () => s.work(2) ? U.save(d) : U.external(d)); await settle(); if (s.failure) return; if (runs !== r) s.fail('unwanted', 'the tool is run on ' + d.fileName + ', whose preview is not open'); }
    // 4: typing is waited out
    if (shown && have.length && s.cfg(3) === 0 && cfg.updateDelay) {
        const t = s.now, k = 1 + s.work(4), step = 1 + s.time(cfg.updateDelay - 1); let end = t; started = []; const starts = () => started.map(x => x.t);
        for (let i = 0; i < k; i++) { s.at(i * step, 'user', () => U.external(shown.doc)); end = t + i * step; }
        await s.until(end + cfg.updateDelay + 2000); if (s.failure) return;
        if (starts().length !== 1) s.fail('debounce', k + ' changes ' + step + ' ms apart with a delay of ' + cfg.updateDelay + ' ms start the tool ' + starts().length + ' times');
        if (starts()[0] < end + cfg.updateDelay) s.fail('debounce', 'the tool starts ' + (starts()[0] - end) + ' ms after the last change; the delay is ' + cfg.updateDelay + ' ms');
        await settle(); if (s.failure) return; const c = parse(shown.uri); if (!c || c.v !== shown.doc.v) s.fail('stale-preview', 'the preview does not show the last change');
    }
    // 5: the extension is switched off
    await settle(); if (s.failure) return; if (shown && s.work(2)) U.external(shown.doc); else if (docs.length) U.edit(docs[0]);
    const r = runs; ext.deactivate && ext.deactivate(); for (const d of context.subscriptions) d.dispose(); await settle(); if (s.failure) return;
    if (runs !== r) s.fail('afterlife', 'the tool is run after the extension was switched off');
    if (open) s.fail('leak', open + ' handlers are left behind by the extension');
}
main({ preview });
