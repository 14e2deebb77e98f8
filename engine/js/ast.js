// usage: node ast.js DIR  -> {relative path: ESTree of the JavaScript that runs (type annotations erased by the TypeScript compiler)}
const fs = require('fs'), path = require('path');
const NM = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const ts = require(NM + '/typescript'), acorn = require(NM + '/acorn');
const root = path.resolve(process.argv[2]);
const out = {};
function js(src, file) {
  const r = ts.transpileModule(src, { fileName: file, reportDiagnostics: true, compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, removeComments: true } });
  if (r.diagnostics && r.diagnostics.length) throw new Error(file + ': ' + ts.flattenDiagnosticMessageText(r.diagnostics[0].messageText, ' '));
  return r.outputText;
}
(function walk(d) {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    const p = path.join(d, e.name);
    if (e.isDirectory()) { if (e.name !== 'node_modules') walk(p); }
    else if (e.name.endsWith('.ts') && !e.name.endsWith('.d.ts'))
      out[path.relative(root, p)] = acorn.parse(js(fs.readFileSync(p, 'utf8'), p), { ecmaVersion: 2022, sourceType: 'module', locations: true });
  }
})(root);
process.stdout.write(JSON.stringify(out, (k, v) => typeof v === 'bigint' ? { $big: v.toString() } : (k === 'start' || k === 'end') ? undefined : v));
