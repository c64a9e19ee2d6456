'use strict';
// Executes a plan on index.js.
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const kzg = require(path.join(__dirname, 'index.js'));

const say = (s) => fs.writeSync(1, s + '\n');
const file = fs.readFileSync(process.argv[2]);
const pool = [];
{
  let p = 4;
  const n = file.readUInt32LE(0);
  for (let i = 0; i < n; i++) {
    const len = file.readUInt32LE(p);
    // half of the entries are views into the middle of a larger buffer
    const view = new Uint8Array(file.buffer, file.byteOffset + p + 4, len);
    pool.push(i % 2 ? view : Uint8Array.from(view));
    p += 4 + len;
  }
}
const le = (n) => {
  const b = Buffer.alloc(4);
  b.writeUInt32LE(n);
  return b;
};
const digest = (lists) => {
  const h = crypto.createHash('sha256');
  for (const l of lists) {
    h.update(le(l.length));
    for (const e of l) {
      h.update(le(e.length));
      h.update(e);
    }
  }
  return h.digest('hex');
};
const poolBefore = digest([pool]);
const ctxs = new Map();
const make = (c) => {
  const m = /^p(.)t(\d+)$/.exec(c);
  return kzg.DasContextJs.create({ usePrecomp: m[1] === '1', numThreads: Number(m[2]) });
};
const list = (s) => (s === '-' ? [] : s.split(',').map((x) => pool[Number(x)]));
const nums = (s) => (s === '-' ? [] : s.split(',').map((x) => BigInt(x)));
// [function name, arguments]
const request = (f) => {
  switch (f[0]) {
    case 'commit':
      return ['blobToKzgCommitment', [pool[Number(f[1])]]];
    case 'compute':
      return ['computeCellsAndKzgProofs', [pool[Number(f[1])]]];
    case 'cells':
      return ['computeCells', [pool[Number(f[1])]]];
    case 'verify':
      return ['verifyCellKzgProofBatch', [list(f[1]), nums(f[2]), list(f[3]), list(f[4])]];
    case 'recover':
      return ['recoverCellsAndKzgProofs', [nums(f[1]), list(f[2])]];
  }
  throw new Error('op ' + f[0]);
};
// The last results: they belong to the caller, so that they stay as they are while more calls are
// made, and so that writing to them does not touch anything else.
const results = [];
let current = '';
const forget = () => {
  const [op, r, was] = results.shift();
  if (digested(op, r) !== was) say(`X ${current} a result of an earlier call changed`);
  const bytes = op === 'commit' ? [r] : op === 'cells' ? r : [...r.cells, ...r.proofs];
  for (const b of bytes) for (let i = 0; i < b.length; i++) b[i] ^= 0xa5;
};
const text = (op, r) => {
  const t = digested(op, r);
  if (t.startsWith('ok:')) {
    results.push([op, r, t]);
    if (results.length > 4) forget();
  }
  return t;
};
const digested = (op, r) => {
  if (r === true || r === false) return String(r);
  if (op === 'commit') return 'ok:' + digest([[r]]);
  if (op === 'cells') return 'ok:' + digest([r]);
  return 'ok:' + digest([r.cells, r.proofs]);
};
const asyncName = (n) => 'async' + n[0].toUpperCase() + n.slice(1);

(async () => {
  const plan = fs.readFileSync(process.argv[3], 'utf8').split('\n').filter((x) => x);
  for (const l of plan) {
    const [head, ...ops] = l.split(' | ');
    const [id, cfg, mode] = head.split(' ');
    say('B ' + id);
    current = id;
    if (mode !== 'd' && !ctxs.has(cfg)) ctxs.set(cfg, make(cfg));
    const k = ctxs.get(cfg);
    const fs_ = ops.map((o) => o.split(' '));
    const res = [];
    if (mode === 's') {
      for (const f of fs_) {
        const [n, a] = request(f);
        let r;
        try {
          r = k[n](...a);
        } catch (e) {
          res.push('err');
          continue;
        }
        res.push(text(f[0], r));
      }
    } else if (mode === 'd') {
      // nothing but the calls in flight holds the context
      const running = (() => {
        const once = make(cfg);
        return fs_.map((f) => {
          const [n, a] = request(f);
          return once[asyncName(n)](...a).then((r) => text(f[0], r), () => 'err');
        });
      })();
      let pending = true;
      const all = Promise.all(running).then((r) => {
        pending = false;
        return r;
      });
      while (pending) {
        global.gc();
        await new Promise((ok) => setTimeout(ok, 1));
      }
      res.push(...(await all));
    } else {
      const order = [];
      const running = [];
      fs_.forEach((f, i) => {
        const [n, a] = request(f);
        let p;
        try {
          p = k[asyncName(n)](...a);
        } catch (e) {
          // a conversion that fails before the call starts also counts as a failure
          order.push(i);
          running.push('err');
          return;
        }
        running.push(
          p.then(
            (r) => {
              order.push(i);
              return text(f[0], r);
            },
            () => {
              order.push(i);
              return 'err';
            }
          )
        );
      });
      for (const r of running) res.push(await r);
      if (fs_.length > 1) say('I order ' + order.join(''));
    }
    say('E ' + id + ' ' + res.join(' '));
  }
  // numbers and bytes of other types are refused, not converted
  if (process.argv[4] === '0' && !process.env.MC_CASE) {
    await types();
    await published();
  }
  while (results.length) forget();
  if (digest([pool]) !== poolBefore) say('X pool an input was modified');
  say('END');
})().catch((e) => {
  console.error(e);
  process.exit(70);
});

async function types() {
  const k = ctxs.values().next().value;
  const row = pool[0];
  const odd = [
    ['undefined', undefined],
    ['null', null],
    ['number', 5],
    ['string', '5'],
    ['bigint', 5n],
    ['array', []],
    ['object', {}],
    ['float', new Float64Array(6)],
  ];
  const b48 = new Uint8Array(48);
  const b2048 = new Uint8Array(2048);
  const places = {
    'commit.blob': (x) => ['blobToKzgCommitment', [x]],
    'compute.blob': (x) => ['computeCellsAndKzgProofs', [x]],
    'verify.commitments': (x) => ['verifyCellKzgProofBatch', [x, [0n], [b2048], [b48]]],
    'verify.commitment': (x) => ['verifyCellKzgProofBatch', [[x], [0n], [b2048], [b48]]],
    'verify.index': (x) => ['verifyCellKzgProofBatch', [[b48], [x], [b2048], [b48]]],
    'verify.cell': (x) => ['verifyCellKzgProofBatch', [[b48], [0n], [x], [b48]]],
    'verify.proof': (x) => ['verifyCellKzgProofBatch', [[b48], [0n], [b2048], [x]]],
    'recover.index': (x) => ['recoverCellsAndKzgProofs', [[x], [b2048]]],
    'recover.cell': (x) => ['recoverCellsAndKzgProofs', [[0n], [x]]],
  };
  for (const [pl, f] of Object.entries(places)) {
    for (const [tn, x] of odd) {
      for (const as of [false, true]) {
        const id = `types/${pl}/${tn}/${as ? 'async' : 'sync'}`;
        say('B ' + id);
        let [n, a] = f(x);
        if (as) n = asyncName(n);
        let r = 'err';
        try {
          r = await k[n](...a);
        } catch (e) {
          r = 'err';
        }
        if (r === true || (r !== 'err' && r !== false)) say(`X ${id} gave a result`);
        else say('I case ' + id);
      }
    }
  }
}

// the sizes the module publishes, and the object it makes without options
async function published() {
  const want = {
    BYTES_PER_COMMITMENT: 48,
    BYTES_PER_PROOF: 48,
    BYTES_PER_FIELD_ELEMENT: 32,
    BYTES_PER_BLOB: 131072,
    MAX_NUM_COLUMNS: 128,
    BYTES_PER_CELL: 2048,
  };
  for (const [n, v] of Object.entries(want)) {
    const id = `published/${n}`;
    say('B ' + id);
    if (kzg[n] === v) say('I case ' + id);
    else say(`X ${id} is ${kzg[n]}, not ${v}`);
  }
  const fresh = new kzg.DasContextJs();
  const k = ctxs.values().next().value;
  const blob = pool.find((b) => b.length === 131072);
  const twin = blob.map((x, i) => (i % 32 === 31 ? x ^ 1 : x));
  for (const [name, b] of [['blob', blob], ['twin', twin], ['short', blob.subarray(1)]]) {
    for (const op of ['commit', 'compute', 'cells']) {
      const n = { commit: 'blobToKzgCommitment', compute: 'computeCellsAndKzgProofs', cells: 'computeCells' }[op];
      for (const as of [false, true]) {
        const id = `published/default/${op}/${name}/${as ? 'async' : 'sync'}`;
        say('B ' + id);
        const one = async (c) => {
          try {
            return text(op, await c[as ? asyncName(n) : n](b));
          } catch (e) {
            return 'err';
          }
        };
        const r = await one(fresh);
        const w = await one(k);
        if (r === w) say('I case ' + id);
        else say(`X ${id} gives ${r} instead of ${w}`);
      }
    }
  }
}
