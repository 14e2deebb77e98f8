// Stand-in for @metaplex-foundation/umi (not installed here): the functions the generated client uses, with umi's published behaviour.
const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
function enc58(b) {
  let n = 0n, z = 0, s = '';
  for (const x of b) n = n * 256n + BigInt(x);
  while (z < b.length && b[z] === 0) z++;
  for (; n > 0n; n /= 58n) s = A[Number(n % 58n)] + s;
  return '1'.repeat(z) + s;
}
function dec58(s) {
  let n = 0n, z = 0; const o = [];
  for (const c of s) { const i = A.indexOf(c); if (i < 0) throw new Error('base58'); n = n * 58n + BigInt(i); }
  while (z < s.length && s[z] === '1') z++;
  for (; n > 0n; n /= 256n) o.unshift(Number(n % 256n));
  return Uint8Array.from([...Array(z).fill(0), ...o]);
}
const isPublicKey = v => { try { return typeof v === 'string' && dec58(v).length === 32; } catch (e) { return false; } };
const isPda = v => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && isPublicKey(v[0]);
const isSigner = v => typeof v === 'object' && v !== null && 'publicKey' in v && 'signMessage' in v;
function publicKey(v, bump = true) {
  if (isPda(v)) return bump ? v : v[0];
  if (typeof v === 'object' && v !== null && 'publicKey' in v) v = v.publicKey;
  if (v instanceof Uint8Array) v = enc58(v);
  if (!isPublicKey(v)) throw new Error('not a public key');
  return v;
}
class ProgramError extends Error { constructor(m, program, cause) { super(m, { cause }); this.program = program; this.cause = cause; } }
const some = value => ({ __option: 'Some', value }), none = () => ({ __option: 'None' });
const S = (serialize, deserialize, fixedSize = null, maxSize = fixedSize) => ({ serialize, deserialize, fixedSize, maxSize, description: '' });
const cat = bs => Uint8Array.from([].concat(...bs.map(b => [...b])));
const int = n => (o = {}) => S(v => {
  v = BigInt(v); if (v < 0n || v >= 1n << BigInt(8 * n)) throw new Error('out of range');
  const b = []; for (let i = 0; i < n; i++) { b.push(Number(v & 255n)); v >>= 8n; }
  return Uint8Array.from(o.endian === 'be' ? b.reverse() : b);
}, (b, off = 0) => {
  let x = [...b.slice(off, off + n)]; if (x.length < n) throw new Error('not enough bytes');
  if (o.endian === 'be') x.reverse();
  let v = 0n; for (let i = n - 1; i >= 0; i--) v = v * 256n + BigInt(x[i]);
  return [n <= 4 ? Number(v) : v, off + n];
}, n);
const u32 = int(4);
const sers = {
  u8: int(1), u16: int(2), u32, u64: int(8), u128: int(16), Endian: { Little: 'le', Big: 'be' },
  publicKey: () => S(v => dec58(publicKey(v, false)), (b, o = 0) => { if (b.length < o + 32) throw new Error('not enough bytes'); return [enc58(b.slice(o, o + 32)), o + 32]; }, 32),
  bool: () => S(v => Uint8Array.of(v ? 1 : 0), (b, o = 0) => [b[o] === 1, o + 1], 1),
  struct: fs => S(v => cat(fs.map(([n, s]) => s.serialize(v[n]))), (b, o = 0) => { const r = {}; for (const [n, s] of fs) [r[n], o] = s.deserialize(b, o); return [r, o]; },
    fs.every(([, s]) => s.fixedSize !== null) ? fs.reduce((a, [, s]) => a + s.fixedSize, 0) : null),
  mapSerializer: (s, un, mp) => S(v => s.serialize(un(v)), (b, o = 0) => { const [v, p] = s.deserialize(b, o); return mp ? [mp(v, b, o), p] : [v, p]; }, s.fixedSize),
  option: s => S(v => { if (v && typeof v === 'object' && '__option' in v) { if (v.__option === 'None') return Uint8Array.of(0); v = v.value; } else if (v === null || v === undefined) return Uint8Array.of(0); return cat([[1], s.serialize(v)]); },
    (b, o = 0) => { if (b[o] === 0) return [none(), o + 1]; const [v, p] = s.deserialize(b, o + 1); return [some(v), p]; }),
  array: (s, o = {}) => S(v => { if (typeof o.size === 'number' && v.length !== o.size) throw new Error('length'); return cat([...(o.size === undefined ? [u32().serialize(v.length)] : []), ...v.map(x => s.serialize(x))]); },
    (b, off = 0) => { let n = o.size; if (n === undefined) [n, off] = u32().deserialize(b, off); const r = []; for (let i = 0; n === 'remainder' ? off < b.length : i < n; i++) { let v; [v, off] = s.deserialize(b, off); r.push(v); } return [r, off]; },
    typeof o.size === 'number' && s.fixedSize !== null ? o.size * s.fixedSize : null),
  scalarEnum: e => { const vs = Object.values(e).filter(x => typeof x === 'number'); return S(v => { if (typeof v === 'string') v = e[v]; if (!vs.includes(v)) throw new Error('variant'); return Uint8Array.of(v); }, (b, o = 0) => { if (!vs.includes(b[o])) throw new Error('variant'); return [b[o], o + 1]; }, 1); },
};
const umi = {
  publicKey, isPublicKey, isPda, isSigner, some, none, ProgramError,
  transactionBuilder: (items = []) => ({ items, getInstructions() { return this.items.map(x => x.instruction); } }),
  deserializeAccount: (raw, s) => { const { data, publicKey: p, ...header } = raw; return { ...s.deserialize(data)[0], publicKey: p, header }; },
  assertAccountExists: a => { if (!a.exists) throw new Error('account does not exist'); },
  gpaBuilder: (ctx, program) => { const g = { program, registerFields(f) { this.fields = f; return this; }, deserializeUsing(d) { this.des = d; return this; } }; return g; },
};
module.exports = { umi, sers, enc58, dec58 };
