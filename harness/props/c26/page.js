// Runs the demo page in a small document model. Requests and responses are lines of JSON.
// usage: node page.js WWW_DIR WASM_DIR
'use strict';
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const readline = require('readline');
const [www, wasm] = process.argv.slice(2);

// the document model

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
const RAW = new Set(['script', 'style', 'textarea', 'title']);
const escapeText = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/\u00a0/g, '&nbsp;');
const unescapeText = (s) => s.replace(/&(?:#(\d+)|#x([0-9a-f]+)|(amp|lt|gt|quot|apos|nbsp));?/gi, (m, d, x, n) =>
  d ? String.fromCodePoint(+d) : x ? String.fromCodePoint(parseInt(x, 16)) : { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' }[n.toLowerCase()]);

class EventHub {
  constructor() { this.listeners = {}; }
  addEventListener(type, f, o) { (this.listeners[type] = this.listeners[type] || []).push({ f, once: !!(o && o.once) }); }
  removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] || []).filter((l) => l.f !== f); }
  fire(ev) {
    ev.currentTarget = this;
    for (const l of [...(this.listeners[ev.type] || [])]) {
      if (l.once) this.removeEventListener(ev.type, l.f);
      if (typeof l.f === 'function') l.f.call(this, ev); else l.f.handleEvent(ev);
    }
    if (typeof this['on' + ev.type] === 'function' && this['on' + ev.type].call(this, ev) === false) ev.preventDefault();
  }
  dispatchEvent(ev) {
    ev.target = ev.target || this;
    for (let n = this; n && !ev.stopped; n = n.parentNode) n.fire(ev);
    return !ev.defaultPrevented;
  }
}

class Event {
  constructor(type, o) { this.type = type; this.defaultPrevented = false; this.stopped = false; Object.assign(this, o); }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = true; }
}

class Node extends EventHub {
  constructor(doc) { super(); this.ownerDocument = doc; this.childNodes = []; this.parentNode = null; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get nextSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) + 1] || null; }
  get previousSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) - 1] || null; }
  get isConnected() { for (let n = this; n; n = n.parentNode) if (n === this.ownerDocument) return true; return false; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  insertBefore(n, ref) {
    if (n instanceof Fragment) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
    if (n.parentNode) n.parentNode.removeChild(n);
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) {
    const i = this.childNodes.indexOf(n);
    if (i < 0) throw new Error('NotFoundError');
    this.childNodes.splice(i, 1);
    n.parentNode = null;
    return n;
  }
  replaceChild(n, old) { this.insertBefore(n, old); this.removeChild(old); return old; }
  wrap(n) { return n instanceof Node ? n : new Text(this.ownerDocument, String(n)); }
  append(...ns) { for (const n of ns) this.appendChild(this.wrap(n)); }
  prepend(...ns) { const f = this.firstChild; for (const n of ns) this.insertBefore(this.wrap(n), f); }
  replaceChildren(...ns) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...ns); }
  before(...ns) { for (const n of ns) this.parentNode.insertBefore(this.wrap(n), this); }
  after(...ns) { const s = this.nextSibling; for (const n of ns) this.parentNode.insertBefore(this.wrap(n), s); }
  replaceWith(...ns) { this.before(...ns); this.remove(); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(''); }
  set textContent(s) { this.replaceChildren(); if (s !== null && s !== undefined && String(s) !== '') this.append(String(s)); }
  get innerText() { return this.textContent; }
  set innerText(s) { this.textContent = String(s); }
  walk(f) { for (const c of this.childNodes) { if (c instanceof Element) { f(c); } c.walk(f); } }
  all(f) { const r = []; this.walk((e) => { if (f(e)) r.push(e); }); return r; }
  get children() { return this.childNodes.filter((c) => c instanceof Element); }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children[this.children.length - 1] || null; }
  getElementsByTagName(t) { return this.all((e) => t === '*' || e.localName === t.toLowerCase()); }
  getElementsByClassName(c) { return this.all((e) => e.classList.contains(c)); }
  querySelectorAll(sel) {
    const alternatives = sel.split(',').map((s) => s.trim().split(/\s*>\s*|\s+/));
    const one = (e, s) => {
      const m = /^([a-z0-9*-]*)((?:[#.][\w-]+|\[[\w-]+(?:=["']?[^\]"']*["']?)?\])*)$/i.exec(s);
      if (!m) throw new Error('selector ' + s);
      if (m[1] && m[1] !== '*' && e.localName !== m[1].toLowerCase()) return false;
      for (const p of m[2].match(/[#.][\w-]+|\[[^\]]*\]/g) || []) {
        if (p[0] === '#' && e.id !== p.slice(1)) return false;
        if (p[0] === '.' && !e.classList.contains(p.slice(1))) return false;
        if (p[0] === '[') {
          const [k, v] = p.slice(1, -1).split('=');
          if (!e.hasAttribute(k) || v !== undefined && e.getAttribute(k) !== v.replace(/^["']|["']$/g, '')) return false;
        }
      }
      return true;
    };
    return this.all((e) => alternatives.some((parts) => {
      if (!one(e, parts[parts.length - 1])) return false;
      let i = parts.length - 2;
      for (let p = e.parentElement; p && i >= 0; p = p.parentElement) if (one(p, parts[i])) i--;
      return i < 0;
    }));
  }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
}

class Text extends Node {
  constructor(doc, s) { super(doc); this.data = s; this.nodeType = 3; this.nodeName = '#text'; }
  get textContent() { return this.data; }
  set textContent(s) { this.data = String(s); }
  get nodeValue() { return this.data; }
  set nodeValue(s) { this.data = String(s); }
  get outerHTML() { return escapeText(this.data); }
}

class Fragment extends Node {}

class Element extends Node {
  constructor(doc, name) {
    super(doc);
    this.nodeType = 1;
    this.localName = name.toLowerCase();
    this.attributes = new Map();
    this.style = new Proxy({
      setProperty(k, v) { this[k] = v; },
      removeProperty(k) { delete this[k]; },
      getPropertyValue(k) { return this[k] || ''; },
    }, {
      get: (t, k) => (k in t ? t[k] : ''),
      set: (t, k, v) => {
        if (k === 'cssText') {
          for (const o of Object.keys(t)) if (typeof t[o] === 'string') delete t[o];
          for (const d of String(v).split(';')) { const [p, x] = d.split(':'); if (x) t[p.trim()] = x.replace('!important', '').trim(); }
        } else t[k] = String(v);
        return true;
      },
    });
    const e = this;
    const data = (k) => 'data-' + k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
    this.dataset = new Proxy({}, {
      get: (t, k) => (typeof k === 'string' && e.hasAttribute(data(k)) ? e.getAttribute(data(k)) : undefined),
      set: (t, k, v) => { e.setAttribute(data(k), v); return true; },
      has: (t, k) => e.hasAttribute(data(k)),
      deleteProperty: (t, k) => { e.removeAttribute(data(k)); return true; },
    });
    this.classList = {
      list: () => (e.getAttribute('class') || '').split(/\s+/).filter(Boolean),
      contains(c) { return this.list().includes(c); },
      add(...cs) { e.setAttribute('class', [...new Set([...this.list(), ...cs])].join(' ')); },
      remove(...cs) { e.setAttribute('class', this.list().filter((c) => !cs.includes(c)).join(' ')); },
      replace(a, b) { const on = this.contains(a); if (on) { this.remove(a); this.add(b); } return on; },
      get length() { return this.list().length; },
      toggle(c, force) { const on = force === undefined ? !this.contains(c) : force; if (on) this.add(c); else this.remove(c); return on; },
    };
    this.theValue = null;
  }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  getAttribute(k) { return this.attributes.has(k) ? this.attributes.get(k) : null; }
  setAttribute(k, v) {
    v = String(v);
    this.attributes.set(k, v);
    if (k === 'style') this.style.cssText = v;
  }
  hasAttribute(k) { return this.attributes.has(k); }
  removeAttribute(k) { this.attributes.delete(k); if (k === 'style') this.style.cssText = ''; }
  getAttributeNames() { return [...this.attributes.keys()]; }
  toggleAttribute(k, force) { const on = force === undefined ? !this.hasAttribute(k) : force; if (on) this.setAttribute(k, ''); else this.removeAttribute(k); return on; }
  get id() { return this.getAttribute('id') || ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; }
  set className(v) { this.setAttribute('class', v); }
  get disabled() { return this.hasAttribute('disabled'); }
  set disabled(v) { this.toggleAttribute('disabled', !!v); }
  get hidden() { return this.hasAttribute('hidden'); }
  set hidden(v) { this.toggleAttribute('hidden', !!v); }
  get value() { return this.theValue === null ? this.getAttribute('value') || '' : this.theValue; }
  set value(v) { this.theValue = String(v); }
  get form() { for (let n = this; n; n = n.parentNode) if (n.localName === 'form') return n; return null; }
  get name() { return this.getAttribute('name') || ''; }
  get type() { return this.getAttribute('type') || (this.localName === 'button' ? 'submit' : 'text'); }
  requestSubmit() { submitForm(this); }
  reset() { for (const e of this.elements) e.theValue = null; }
  get elements() { const r = this.querySelectorAll('input,button,select,textarea'); for (const e of r) r[e.id || e.getAttribute('name')] = e; return r; }
  get innerHTML() { return this.childNodes.map((c) => c.outerHTML).join(''); }
  set innerHTML(s) { this.replaceChildren(); parseHTML(this.ownerDocument, this, String(s === null ? '' : s)); }
  get outerHTML() {
    const attrs = [...this.attributes].map(([k, v]) => ` ${k}="${v.replace(/&/g, '&amp;').replace(/"/g, '&quot;')}"`).join('');
    return `<${this.localName}${attrs}>` + (VOID.has(this.localName) ? '' : this.innerHTML + `</${this.localName}>`);
  }
  insertAdjacentHTML(where, s) { const f = new Element(this.ownerDocument, 'div'); f.innerHTML = s; this.insertAdjacent(where, [...f.childNodes]); }
  insertAdjacentText(where, s) { this.insertAdjacent(where, [s]); }
  insertAdjacentElement(where, e) { this.insertAdjacent(where, [e]); return e; }
  insertAdjacent(where, ns) {
    ({ beforebegin: () => this.before(...ns), afterbegin: () => this.prepend(...ns), beforeend: () => this.append(...ns), afterend: () => this.after(...ns) })[where.toLowerCase()]();
  }
  matches(sel) { return this.ownerDocument.querySelectorAll(sel).includes(this); }
  closest(sel) { for (let n = this; n instanceof Element; n = n.parentNode) if (n.matches(sel)) return n; return null; }
  focus() {}
  blur() {}
  select() {}
  scrollIntoView() {}
  click() { click(this); }
}

function parseHTML(doc, root, s) {
  let at = root;
  const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<\/([a-z][a-z0-9-]*)\s*>|<([a-z][a-z0-9-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]*))?)*)\s*(\/?)>|[^<]+|</gi;
  let m;
  while ((m = re.exec(s))) {
    if (m[0].startsWith('<!')) continue;
    if (m[1]) {
      for (let n = at; n && n !== root; n = n.parentNode) if (n.localName === m[1].toLowerCase()) { at = n.parentNode; break; }
    } else if (m[2]) {
      const e = new Element(doc, m[2]);
      for (const a of m[3].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?/g)) e.setAttribute(a[1].toLowerCase(), unescapeText(a[2] ?? a[3] ?? a[4] ?? ''));
      at.appendChild(e);
      if (RAW.has(e.localName)) {
        const end = s.slice(re.lastIndex).search(new RegExp('</' + e.localName + '\\s*>', 'i'));
        const stop = end < 0 ? s.length : re.lastIndex + end;
        if (stop > re.lastIndex) e.appendChild(new Text(doc, s.slice(re.lastIndex, stop)));
        re.lastIndex = stop;
        at = e;
      } else if (!VOID.has(e.localName) && !m[4]) at = e;
    } else at.appendChild(new Text(doc, unescapeText(m[0])));
  }
}

class Document extends Node {
  constructor() { super(null); this.ownerDocument = this; this.nodeType = 9; this.readyState = 'loading'; }
  createElement(n) { return new Element(this, n); }
  createTextNode(s) { return new Text(this, String(s)); }
  createDocumentFragment() { return new Fragment(this); }
  getElementById(id) { return this.all((e) => e.id === id)[0] || null; }
  get documentElement() { return this.querySelector('html'); }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
  get forms() { const r = this.querySelectorAll('form'); for (const f of r) r[f.id || f.name] = f; return r; }
  get activeElement() { return this.body; }
}

// a page

const deferred = [];
process.on('unhandledRejection', (e) => { deferred.push('unhandled rejection: ' + (e && e.stack || e)); });
process.on('uncaughtException', (e) => { deferred.push('uncaught: ' + (e && e.stack || e)); });

const HOST = 'http://localhost:8080';
let held = []; // answers which are held back
let hold = false;
let lost = false; // the modules can not be loaded

function get(url) {
  const u = new URL(url, HOST + '/');
  if (u.origin !== HOST) throw new TypeError('fetch of ' + u);
  const p = decodeURIComponent(u.pathname);
  const file = p.startsWith('/wasm/') ? path.join(wasm, p.slice(6)) : path.join(www, p === '/' ? 'index.html' : p);
  try { return fs.readFileSync(file); } catch (e) { return null; }
}

function browser() {
  const document = new Document();
  const window = new EventHub();
  const quiet = () => {};
  const g = {
    document, console: { log: quiet, debug: quiet, info: quiet, warn: quiet, error: quiet, trace: quiet },
    TextEncoder, TextDecoder, URL, Headers, Request, Response, AbortController, performance, crypto: globalThis.crypto,
    setTimeout, clearTimeout, setInterval, clearInterval, queueMicrotask, structuredClone,
    requestAnimationFrame: (f) => setTimeout(() => f(performance.now()), 1),
    location: new URL(HOST + '/'), navigator: { userAgent: 'page.js', language: 'en' },
    alert: quiet, FormData: PageFormData, getComputedStyle: (e) => e.style, Event, CustomEvent: Event, HTMLElement: Element, Element, Node,
    fetch: async (url) => {
      if (hold) await new Promise((r) => held.push(r));
      const b = get(typeof url === 'string' ? url : String(url.url || url));
      if (!b || lost) return new Response('404 page not found\n', { status: 404 });
      return new Response(b, { headers: { 'Content-Type': 'application/wasm' } });
    },
  };
  g.addEventListener = window.addEventListener.bind(window);
  g.removeEventListener = window.removeEventListener.bind(window);
  g.dispatchEvent = window.dispatchEvent.bind(window);
  const context = vm.createContext(g);
  vm.runInContext('var window = globalThis, self = globalThis;', context);
  document.defaultView = g;
  // functions compiled in the page must see its own WebAssembly, whose objects accept the bytes of ours
  g.WebAssembly = Object.create(WebAssembly, Object.getOwnPropertyDescriptors(WebAssembly));
  g.WebAssembly.instantiateStreaming = async (response, imports) => {
    const r = await response;
    if (!r.ok || r.headers.get('Content-Type') !== 'application/wasm') throw new TypeError('instantiateStreaming: not a module');
    const bytes = Buffer.from(await r.arrayBuffer());
    // compiling takes long: once is enough
    if (!compiled || !compiled.bytes.equals(bytes)) compiled = { bytes, module: await WebAssembly.compile(bytes) };
    return { module: compiled.module, instance: await WebAssembly.instantiate(compiled.module, imports) };
  };
  g.Uint8Array = Uint8Array;
  g.Uint8ClampedArray = Uint8ClampedArray;
  g.DataView = DataView;
  g.ArrayBuffer = ArrayBuffer;
  return { g, context, document, window };
}

class PageFormData {
  constructor(f) { this.fields = f ? f.elements.filter((e) => e.name && e.localName !== 'button').map((e) => [e.name, e.value]) : []; }
  get(k) { const f = this.fields.find((x) => x[0] === k); return f ? f[1] : null; }
  getAll(k) { return this.fields.filter((x) => x[0] === k).map((x) => x[1]); }
  has(k) { return this.get(k) !== null; }
  append(k, v) { this.fields.push([k, String(v)]); }
  entries() { return this.fields[Symbol.iterator](); }
  [Symbol.iterator]() { return this.entries(); }
}

let page = null;
let compiled = null;

async function until(f, ms) {
  for (const end = Date.now() + ms; ; ) {
    if (f()) return true;
    if (Date.now() > end) return false;
    await new Promise((r) => setTimeout(r, 1));
  }
}

// open loads the page: the markup, its scripts in order, and then the load event.
async function open(missing) {
  const b = browser();
  page = b;
  deferred.length = 0;
  held = [];
  hold = true;
  lost = !!missing;
  const html = get('/');
  if (!html) return { error: 'there is no page' };
  parseHTML(b.document, b.document, html.toString('utf8'));
  for (const s of b.document.querySelectorAll('script')) {
    const src = s.getAttribute('src');
    const code = src ? get(src) : Buffer.from(s.textContent);
    if (!code) return { error: 'there is no script ' + src };
    vm.runInContext(code.toString('utf8'), b.context, { filename: src || 'inline' });
  }
  b.document.readyState = 'complete';
  b.document.dispatchEvent(new Event('DOMContentLoaded'));
  const load = new Event('load', { target: b.document });
  b.window.fire(load);
  if (typeof b.g.onload === 'function') b.g.onload(load);
  const body = b.document.body;
  if (body && body.hasAttribute('onload')) vm.runInContext(body.getAttribute('onload'), b.context);
  await new Promise((r) => setTimeout(r, 5));
  const before = state();
  hold = false;
  held.forEach((r) => r());
  if (missing) await until(() => !state().disabled, 100);
  else await until(() => !state().disabled || deferred.length > 0, 60000);
  return { before, after: state(), errors: [...deferred] };
}

const element = (id) => page.document.getElementById(id);

function shown(e) {
  for (let n = e; n instanceof Element; n = n.parentNode) if (n.style.display === 'none' || n.hidden) return false;
  return true;
}

function state() {
  const button = element('button'), result = element('result');
  return {
    disabled: !button || button.disabled,
    shown: !!result && shown(result),
    text: result ? result.textContent : '',
    elements: result ? result.all(() => true).map((e) => e.localName) : [],
    raw: element('raw') ? element('raw').value : '',
  };
}

// click has the effect of a click of the user on a button; it returns whether the form would be submitted.
function click(e) {
  if (e.disabled) return false;
  const ev = new Event('click', { target: e });
  for (let n = e; n && !ev.stopped; n = n.parentNode) {
    if (n instanceof Element && n.hasAttribute('onclick') && !n.compiled) {
      n.compiled = true;
      n.onclick = vm.compileFunction(n.getAttribute('onclick'), ['event'], { parsingContext: page.context });
    }
    n.fire(ev);
  }
  if (ev.defaultPrevented || !e.form || (e.getAttribute('type') || 'submit') !== 'submit') return false;
  return submitForm(e.form, e);
}

function submitForm(f, submitter) {
  const sub = new Event('submit', { target: f, submitter: submitter || null });
  if (f.hasAttribute('onsubmit')) f.onsubmit = vm.compileFunction(f.getAttribute('onsubmit'), ['event'], { parsingContext: page.context });
  f.dispatchEvent(sub);
  return !sub.defaultPrevented;
}

// type has the effect of a user's typing a text in to an input.
function type(e, text) {
  if (e.disabled || e.hasAttribute('readonly')) return;
  const max = e.hasAttribute('maxlength') ? Number(e.getAttribute('maxlength')) : NaN;
  if (max >= 0) text = text.slice(0, max);
  switch ((e.getAttribute('type') || 'text').toLowerCase()) {
    case 'number': case 'range': if (!/^-?\d+(\.\d+)?$/.test(text)) text = ''; break;
    case 'date': if (!/^\d{4}-\d\d-\d\d$/.test(text)) text = ''; break;
    case 'month': if (!/^\d{4}-\d\d$/.test(text)) text = ''; break;
    case 'datetime-local': if (!/^\d{4}-\d\d-\d\dT\d\d:\d\d(:\d\d)?$/.test(text)) text = ''; break;
    case 'url': case 'email': text = text.trim(); break;
  }
  e.value = text;
  for (const name of ['input', 'change']) {
    const ev = new Event(name, { target: e });
    if (e.hasAttribute('on' + name)) e['on' + name] = vm.compileFunction(e.getAttribute('on' + name), ['event'], { parsingContext: page.context });
    e.dispatchEvent(ev);
  }
}

async function submit(text) {
  deferred.length = 0;
  type(element('raw'), text);
  let navigates;
  try { navigates = click(element('button')); } catch (e) { return { errors: [String(e && e.stack || e)], state: state() }; }
  // until something is shown, and nothing changes any more
  const settled = await until(() => { const s = state(); return s.shown && s.text !== '' || deferred.length > 0; }, 20000);
  for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r));
  return { navigates, settled, state: state(), errors: [...deferred] };
}

let last = Promise.resolve();
readline.createInterface({ input: process.stdin }).on('line', (line) => {
  last = last.then(async () => {
    const q = JSON.parse(line);
    let r;
    try {
      if (q.kind === 'open') r = await open(q.missing);
      else { r = { answers: [] }; for (const t of q.texts) r.answers.push(await submit(t)); }
    } catch (e) { r = { error: String(e && e.stack || e) }; }
    process.stdout.write(JSON.stringify(r) + '\n');
  });
});
process.stdout.write('ready\n');
