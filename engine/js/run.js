// line server: one JSON request per line on stdin, one JSON answer per line
const { enc58, dec58 } = require('./umi.js'), load = require('./load.js');
const C = load(process.argv[2]);
const hex = b => Buffer.from(b).toString('hex'), un = h => Uint8Array.from(Buffer.from(h, 'hex')), key = h => enc58(un(h)), kx = k => hex(dec58(k));
const signer = k => ({ publicKey: key(k), signMessage: async () => {}, signTransaction: async () => {} });
function context(q) {
  const reg = q.registered || {};
  return { programs: { getPublicKey: (n, fb) => { if (reg[n]) return key(reg[n]); if (fb === undefined) throw new Error('program not registered'); return fb; }, get: n => ({ name: n }) }, payer: signer(q.payer), identity: signer(q.payer),
    rpc: { getAccount: async k => raw({ ...q, key: kx(k) }), getAccounts: async ks => ks.map(k => raw({ ...q, key: kx(k) })) } };
}
const raw = q => q.exists === false ? { publicKey: key(q.key), exists: false } : ({ publicKey: key(q.key), exists: true, data: un(q.data), executable: false, owner: key(q.payer), lamports: 1n });
const account = a => a.kind === 'key' ? key(a.key) : a.kind === 'pda' ? [key(a.key), a.bump] : a.kind === 'signer' ? signer(a.key) : undefined;
const arg = a => a === null ? null : a.key ? key(a.key) : a.none ? { __option: 'None' } : a.some !== undefined ? { __option: 'Some', value: BigInt(a.some) } : a.num !== undefined ? a.num : BigInt(a.big);
const plain = v => typeof v === 'bigint' ? { big: v.toString() } : Array.isArray(v) ? v.map(plain) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).filter(([k]) => k !== 'header').map(([k, x]) => [k, plain(x)])) : v;
async function answer(q) {
  if (q.fn === 'ix') {
    const inp = {};
    for (const [n, a] of Object.entries(q.accounts)) { const v = account(a); if (v !== undefined) inp[n] = v; }
    for (const [n, a] of Object.entries(q.args)) inp[n] = arg(a);
    const b = C[q.name](context(q), inp), it = b.items[0], ix = it.instruction;
    return { n: b.items.length, program: kx(ix.programId), data: hex(ix.data), metas: ix.keys.map(m => [kx(m.pubkey), m.isSigner, m.isWritable]), signers: it.signers.map(s => kx(s.publicKey)) };
  }
  if (q.fn === 'account') {
    const W = q.which; let v;
    if (q.way === 'serializer') v = C[`get${W}AccountDataSerializer`]().deserialize(un(q.data), 0)[0];
    else if (q.way === 'deserialize') v = C[`deserialize${W}`](raw(q));
    else if (q.way === 'gpa') { const g = C[`get${W}GpaBuilder`](context(q)); v = {}; for (const [n, [o, s]] of Object.entries(g.fields)) v[n] = s.deserialize(un(q.data), o)[0]; }
    else if (q.way === 'size') return { size: C[`get${W}Size`]() };
    else v = await C[`${q.way}${W}`](context(q), key(q.key));
    return { value: v === null ? null : plain(v) };
  }
  if (q.fn === 'error') {
    const p = C.createMplxRewardsProgram(), cause = new Error('cause'), by = q.name !== undefined ? 'Name' : 'Code', x = q.name !== undefined ? q.name : q.code;
    const e = q.way === 'program' ? p[`getErrorFrom${by}`](x, cause) : C[`getMplxRewardsErrorFrom${by}`](x, p, cause);
    return e === null || e === undefined ? { error: null } : { error: { name: e.name, code: e.code, message: e.message, program: e.program === p, cause: e.cause === cause } };
  }
  if (q.fn === 'program') return { name: C.createMplxRewardsProgram().name, key: kx(C.createMplxRewardsProgram().publicKey), id: kx(C.getMplxRewardsProgramId(context(q))), key58: key(q.probe), periods: C.LockupPeriod };
  throw new Error('request');
}
require('readline').createInterface({ input: process.stdin }).on('line', async l => {
  let r; try { r = await answer(JSON.parse(l)); } catch (e) { r = { throws: String(e && e.message) }; }
  process.stdout.write(JSON.stringify(r) + '\n');
});
