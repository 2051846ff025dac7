// node --experimental-vm-modules page.mjs LIST OUT: loads each page's script the way a browser
// would (HTML tokenizer rules, then a module with stand-ins for d3 and the DOM) and writes the
// data handed to the drawing code.
import fs from 'node:fs';
import vm from 'node:vm';

// ---- HTML: the script elements' types and texts, and the markup around them ----------------
function scripts(raw) {
  const s = raw.replace(/^\ufeff/, '').replace(/\r\n?/g, '\n');
  const out = [];
  out.title = null;
  let i = 0;
  const tag = (p) => { // position after a tag's '>' starting at '<'
    let q = null;
    for (let k = p + 1; k < s.length; k++) {
      const c = s[k];
      if (q) { if (c === q) q = null; }
      else if ((c === '"' || c === "'") && s[k - 1] === '=') q = c;
      else if (c === '>') return k + 1;
    }
    return s.length;
  };
  const closes = (k, name) => s.substr(k, name.length + 2).toLowerCase() === '</' + name && /[\s\/>]/.test(s[k + name.length + 2] || '');
  while (i < s.length) {
    const lt = s.indexOf('<', i);
    if (lt < 0) break;
    if (s.startsWith('<!--', lt)) {
      if (s[lt + 4] === '>') { i = lt + 5; continue; }
      if (s.startsWith('->', lt + 4)) { i = lt + 6; continue; }
      const m = /--!?>/g; m.lastIndex = lt + 4;
      const e = m.exec(s);
      i = e ? m.lastIndex : s.length;
      continue;
    }
    if (/[!?]/.test(s[lt + 1] || '') || (s[lt + 1] === '/' && !/[a-z]/i.test(s[lt + 2] || ''))) { const e = s.indexOf('>', lt); i = e < 0 ? s.length : e + 1; continue; }
    const m = /^<\/?([a-zA-Z][^\s\/>]*)/.exec(s.slice(lt, lt + 60));
    if (!m) { i = lt + 1; continue; }
    const name = m[1].toLowerCase(), open = s[lt + 1] !== '/';
    const end = tag(lt);
    const head = s.slice(lt, end);
    i = end;
    if (!open) continue;
    if (name === 'style' || name === 'title' || name === 'textarea') {
      const b = i;
      while (i < s.length && !closes(i, name)) i++;
      if (name === 'title' && out.title === null) out.title = s.slice(b, i);
      continue;
    }
    if (name !== 'script') continue;
    // script data states: 0 plain, 1 escaped, 2 double escaped
    let st = 0, k = i, ended = false;
    const word = (p, slash) => s.substr(p, slash ? 8 : 7).toLowerCase() === (slash ? '</script' : '<script') && /[\s\/>]/.test(s[p + (slash ? 8 : 7)] || '');
    while (k < s.length) {
      if (st === 0) {
        if (s.startsWith('<!--', k)) { st = 1; k += 2; continue; } // the two dashes count for '-->'
        if (word(k, true)) { ended = true; break; }
      } else if (s.startsWith('-->', k)) { st = 0; k += 3; continue; }
      else if (st === 1) {
        if (word(k, true)) { ended = true; break; }
        if (word(k, false)) { st = 2; k += 7; continue; }
      } else if (word(k, true)) { st = 1; k += 8; continue; }
      k++;
    }
    out.push({ head, text: s.slice(i, k), ended });
    i = ended ? tag(k) : s.length;
  }
  return out;
}

// ---- stand-ins --------------------------------------------------------------------------------
function anything() {
  const f = function () { return p; };
  const p = new Proxy(f, {
    get(t, k) {
      if (k === Symbol.toPrimitive) return () => 1;
      if (k === Symbol.iterator) return function* () { };
      if (k === 'then') return undefined;
      if (k === 'length') return 0;
      if (k === 'prototype') return t.prototype;
      return p;
    },
    set() { return true; }, has() { return true; }, apply() { return p; }, construct() { return p; },
    getOwnPropertyDescriptor(t, k) { return Reflect.getOwnPropertyDescriptor(t, k); },
  });
  return p;
}
function flat(x) {
  const out = [], todo = [x];
  while (todo.length) {
    const n = todo.pop();
    if (n === null || typeof n !== 'object') { out.push({ k: '?' }); continue; }
    const cps = (v) => typeof v === 'string' ? Array.from(v, c => c.codePointAt(0)) : [-1];
    if (Array.isArray(n.children)) {
      out.push({ k: 'R', ix: String(n.id), nm: cps(n.name), n: n.children.length });
      for (let i = n.children.length - 1; i >= 0; i--) todo.push(n.children[i]);
    } else out.push({ k: 'T', nm: cps(n.name), tx: cps(n.text) });
    if (out.length > 100000) break;
  }
  return out;
}

async function load(path) {
  let raw;
  try { raw = fs.readFileSync(path, 'utf8'); } catch { return { res: 'nofile', tree: [], scripts: 0, ran: false, title: '' }; }
  const all = scripts(raw);
  const mine = all.filter(x => x.text.trim() !== '');
  const ret = { res: 'ok', tree: [], scripts: all.length, ran: false, msg: '', title: all.title === null ? '' : all.title };
  if (mine.length === 0) return { ...ret, res: 'noscript' };
  const seen = [];
  const d3 = anything();
  const hierarchy = (d) => { seen.push(d); return anything(); };
  const sandbox = { console: { log() { }, error() { }, warn() { } }, pwned: () => { sandbox.__pwned = true; return ''; } };
  sandbox.window = sandbox; sandbox.globalThis = sandbox; sandbox.document = anything(); sandbox.alert = sandbox.pwned;
  const ctx = vm.createContext(sandbox, { codeGeneration: { strings: false, wasm: false } });
  try {
    for (const x of mine) {
      if (!x.ended) throw new Error('script element not closed');
      if (/type\s*=\s*["']?module/.test(x.head)) {
        const mod = new vm.SourceTextModule(x.text, { context: ctx, identifier: 'page' });
        await mod.link(() => {
          const names = new Set(['hierarchy', 'default']);
          for (const m of x.text.matchAll(/\bd3\.(\w+)/g)) names.add(m[1]);
          return new vm.SyntheticModule([...names], function () { for (const n of names) this.setExport(n, n === 'hierarchy' ? hierarchy : n === 'default' ? Object.assign({}, { hierarchy }) : d3); }, { context: ctx });
        });
        await mod.evaluate({ timeout: 5000 });
      } else {
        sandbox.d3 = new Proxy(function () { }, { get: (t, k) => k === 'hierarchy' ? hierarchy : d3 });
        new vm.Script(x.text).runInContext(ctx, { timeout: 5000 });
      }
    }
  } catch (e) {
    ret.res = 'error'; ret.msg = String(e && e.message);
  }
  ret.ran = sandbox.__pwned === true;
  if (seen.length === 0) { if (ret.res === 'ok') ret.res = 'nodata'; return ret; }
  ret.tree = flat(seen[0]);
  const s0 = JSON.stringify(ret.tree);
  ret.same = seen.every(d => JSON.stringify(flat(d)) === s0);
  return ret;
}

const list = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const out = [];
for (const p of list) out.push(await load(p));
fs.writeFileSync(process.argv[3], JSON.stringify(out));
process.exit(0);
