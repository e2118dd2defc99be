// node build.js SRCDIR OUTDIR TAG: translates the extension's TypeScript to the JavaScript its own build would make
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const [src, out, tag] = process.argv.slice(2); const map = {};
(function walk(d, rel) {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
        if (e.isDirectory()) { if (e.name !== 'test') walk(path.join(d, e.name), rel + e.name + '/'); continue; }
        if (!e.name.endsWith('.ts') || e.name.endsWith('.d.ts')) continue;
        const r = ts.transpileModule(fs.readFileSync(path.join(d, e.name), 'utf8'), { reportDiagnostics: true, fileName: e.name, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true } });
        for (const x of r.diagnostics || []) { console.error('error: ' + rel + e.name + ': ' + ts.flattenDiagnosticMessageText(x.messageText, '\n')); process.exitCode = 1; }
        map[rel + e.name.slice(0, -3)] = r.outputText;
    }
})(src, '');
fs.writeFileSync(path.join(out, tag + '.modules.json'), JSON.stringify(map));
