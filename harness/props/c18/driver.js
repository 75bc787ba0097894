// Runs the WASI and the JavaScript builds of the parser in one node process. Requests and responses are lines of JSON.
// usage: node driver.js WASM_EXEC_JS PARSE_JS_WASM PARSE_P1_WASM
'use strict';
const fs = require('fs');
const [execJs, jsWasm, p1Wasm] = process.argv.slice(2);
globalThis.require = require;
globalThis.fs = fs;
globalThis.path = require('path');
require(execJs);
const readline = require('readline');

let jsExited = false;

async function startJs() {
  const go = new Go();
  go.argv = ['js'];
  go.exit = () => { jsExited = true; };
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(jsWasm), go.importObject);
  go.run(instance).then(() => { jsExited = true; }, () => { jsExited = true; });
  for (let i = 0; typeof globalThis.parse_edtf !== 'function'; i++) {
    if (i > 2000 || jsExited) throw new Error('parse_edtf is not defined');
    await new Promise((r) => setTimeout(r, 5));
  }
}

async function js(s) {
  if (jsExited) return { state: 'exited' };
  let timer;
  const late = new Promise((r) => { timer = setTimeout(() => r({ state: 'pending' }), 60000); });
  const p = (async () => {
    let v;
    try { v = parse_edtf(s); } catch (e) { return { state: 'thrown', value: String(e) }; }
    if (v === null || typeof v !== 'object' || typeof v.then !== 'function') return { state: 'not a promise', value: String(v) };
    try {
      const x = await v;
      return { state: 'resolved', type: typeof x, value: typeof x === 'string' ? x : String(JSON.stringify(x)) };
    } catch (e) {
      return { state: 'rejected', type: typeof e, value: typeof e === 'string' ? e : (e && e.message) ? String(e.message) : String(e) };
    }
  })();
  const r = await Promise.race([p, late]);
  clearTimeout(timer);
  return r;
}

let p1;
let instances = 0;

class Exit extends Error {
  constructor(code) { super('exit ' + code); this.code = code; }
}

// host is the part of WASI preview 1 which a Go program needs to read its arguments and to print. (node's own
// implementation crashes when many of its instances are collected.)
function host(args, out) {
  let memory;
  const bytes = args.map((a) => Buffer.from(a + '\0', 'utf8'));
  const view = () => new DataView(memory.buffer);
  const list = (items) => ({
    sizes: (n, size) => {
      view().setUint32(n, items.length, true);
      view().setUint32(size, items.reduce((t, b) => t + b.length, 0), true);
      return 0;
    },
    get: (ptrs, buf) => {
      for (const b of items) {
        view().setUint32(ptrs, buf, true);
        new Uint8Array(memory.buffer, buf, b.length).set(b);
        ptrs += 4;
        buf += b.length;
      }
      return 0;
    },
  });
  const argv = list(bytes);
  const env = list([]);
  const calls = {
    args_sizes_get: argv.sizes,
    args_get: argv.get,
    environ_sizes_get: env.sizes,
    environ_get: env.get,
    proc_exit: (code) => { throw new Exit(code); },
    sched_yield: () => 0,
    clock_time_get: (id, precision, p) => {
      view().setBigUint64(p, id === 0 ? BigInt(Date.now()) * 1000000n : process.hrtime.bigint(), true);
      return 0;
    },
    random_get: (p, n) => { require('crypto').randomFillSync(new Uint8Array(memory.buffer, p, n)); return 0; },
    fd_fdstat_get: (fd, p) => {
      if (fd > 2) return 8;
      new Uint8Array(memory.buffer, p, 24).fill(0);
      view().setUint8(p, 2);
      view().setBigUint64(p + 8, 0x1fffffffn, true);
      return 0;
    },
    fd_fdstat_set_flags: () => 0,
    fd_prestat_get: () => 8,
    fd_prestat_dir_name: () => 8,
    fd_write: (fd, iovs, n, written) => {
      if (!out[fd]) return 8;
      let total = 0;
      for (let i = 0; i < n; i++) {
        const p = view().getUint32(iovs + 8 * i, true);
        const len = view().getUint32(iovs + 8 * i + 4, true);
        out[fd].push(Buffer.from(new Uint8Array(memory.buffer, p, len)));
        total += len;
      }
      view().setUint32(written, total, true);
      return 0;
    },
    fd_read: (fd, iovs, n, read) => { view().setUint32(read, 0, true); return 0; },
    poll_oneoff: (inp, outp, n, nevents) => {
      for (let i = 0; i < n; i++) {
        new Uint8Array(memory.buffer, outp + 32 * i, 32).fill(0);
        view().setBigUint64(outp + 32 * i, view().getBigUint64(inp + 48 * i, true), true);
        view().setUint8(outp + 32 * i + 10, view().getUint8(inp + 48 * i + 8));
      }
      view().setUint32(nevents, n, true);
      return 0;
    },
  };
  const imports = {};
  for (const i of WebAssembly.Module.imports(p1)) {
    imports[i.module] = imports[i.module] || {};
    imports[i.module][i.name] = calls[i.name] || (() => 52);
  }
  return { imports, use: (m) => { memory = m; } };
}

async function wasi(args) {
  if (!p1) p1 = await WebAssembly.compile(fs.readFileSync(p1Wasm));
  const out = [null, [], []];
  const h = host(['parse', ...args], out);
  let instance;
  for (let i = 0; ; i++) {
    try {
      instance = await WebAssembly.instantiate(p1, h.imports);
      break;
    } catch (e) {
      // the memory of earlier instances is not free before they are collected
      if (i > 20) throw e;
      gc();
      await new Promise((r) => setTimeout(r, 10));
    }
  }
  h.use(instance.exports.memory);
  let code = 0, failure = '';
  try { instance.exports._start(); } catch (e) {
    if (e instanceof Exit) code = e.code; else { code = -1; failure = String(e); }
  }
  return { code, failure, stdout: Buffer.concat(out[1]).toString('utf8'), stderr: Buffer.concat(out[2]).toString('utf8') };
}

(async () => {
  await startJs();
  process.stdout.write('ready\n');
  for await (const line of readline.createInterface({ input: process.stdin })) {
    const q = JSON.parse(line);
    const r = q.kind === 'js' ? await Promise.all(q.args.map(js)) : await wasi(q.args);
    if (q.kind !== 'js' && ++instances % 25 === 0) gc();
    process.stdout.write(JSON.stringify(r) + '\n');
  }
  process.exit(0);
})().catch((e) => { process.stdout.write('failed ' + String(e).replace(/\n/g, ' ') + '\n'); process.exit(3); });
