// load(DIR): the client in DIR, its types erased by the TypeScript compiler, on the stand-in for umi.  Nothing is written.
const fs = require('fs'), path = require('path'), Module = require('module');
const NM = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const ts = require(NM + '/typescript'), { umi, sers } = require('./umi.js');
module.exports = function load(root) {
  const done = {};
  function file(p) {
    for (const q of [p + '.ts', path.join(p, 'index.ts'), p]) if (fs.existsSync(q) && fs.statSync(q).isFile()) return q;
    throw new Error('no module ' + p);
  }
  function mod(p) {
    p = file(p);
    if (done[p]) return done[p].exports;
    const m = done[p] = { exports: {} };
    const src = ts.transpileModule(fs.readFileSync(p, 'utf8'), { fileName: p, compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS } }).outputText;
    new Function('require', 'module', 'exports', src)(n => n === '@metaplex-foundation/umi' ? umi : n === '@metaplex-foundation/umi/serializers' ? sers : n.startsWith('.') ? mod(path.resolve(path.dirname(p), n)) : Module.createRequire(p)(n), m, m.exports);
    return m.exports;
  }
  return mod(path.resolve(root));
};
