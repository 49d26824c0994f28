"use strict";
// A simulated web browser for one or more tabs: documents, scripts, timers, and web sockets under a simulated clock.
// Reads a job (JSON) from standard input, prints what every tab displayed (JSON). No real time, network or randomness.
const fs = require("fs"), path = require("path"), vm = require("vm");

// ---- a document object model (the part pages like this one use) ------------------------------------------------
const ENT = {amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0"};
const decode = s => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) => e[0] === "#" ?
  String.fromCodePoint(e[1].toLowerCase() === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1))) : (ENT[e] ?? m));
const COLOUR = /^(none|transparent|currentcolor|inherit|context-fill|context-stroke|initial|unset|#([0-9a-f]{3}|[0-9a-f]{4}|[0-9a-f]{6}|[0-9a-f]{8})|(rgba?|hsla?|url)\([^)]*\).*|aliceblue|black|silver|gray|grey|white|maroon|red|purple|fuchsia|green|lime|olive|yellow|navy|blue|teal|aqua|orange|brown|darkred|darkgreen|darkblue|gold|pink|crimson|tomato|steelblue|royalblue|limegreen|forestgreen|orangered|firebrick|lightgray|lightgrey|darkgray|darkgrey)$/i;
const camel = p => p.replace(/-([a-z])/g, (m, c) => c.toUpperCase());
const kebab = p => p.replace(/[A-Z]/g, c => "-" + c.toLowerCase());

function makeStyle(text) {
  const decl = new Map();
  const put = (p, v) => {
    p = kebab(String(p));
    v = v === null ? "" : String(v).trim().replace(/\s*!important$/, "");
    if (v === "") { decl.delete(p); return; }
    if ((p === "fill" || p === "stroke" || p === "color") && !COLOUR.test(v)) return;   // invalid: ignored
    if (v === "undefined" || v === "NaN") return;
    decl.set(p, v);
  };
  const parse = t => { for (const d of String(t).split(";")) { const i = d.indexOf(":"); if (i > 0) put(d.slice(0, i).trim(), d.slice(i + 1)); } };
  parse(text || "");
  const api = {
    setProperty: put, getPropertyValue: p => decl.get(kebab(p)) || "",
    removeProperty: p => { const v = decl.get(kebab(p)) || ""; decl.delete(kebab(p)); return v; },
    get cssText() { return [...decl].map(([a, b]) => a + ": " + b + ";").join(" "); },
    set cssText(t) { decl.clear(); parse(t); },
  };
  return new Proxy(api, {
    get: (o, p) => typeof p === "symbol" ? undefined : p in o ? o[p] : decl.get(kebab(p)) || "",
    set: (o, p, v) => { if (p === "cssText") o.cssText = v; else put(p, v); return true; },
  });
}

const ident = () => [1, 0, 0, 1, 0, 0];
const mul = (A, B) => [A[0] * B[0] + A[2] * B[1], A[1] * B[0] + A[3] * B[1], A[0] * B[2] + A[2] * B[3],
  A[1] * B[2] + A[3] * B[3], A[0] * B[4] + A[2] * B[5] + A[4], A[1] * B[4] + A[3] * B[5] + A[5]];
const rot = (deg, x, y) => {
  const r = deg * Math.PI / 180, c = Math.cos(r), s = Math.sin(r);
  return mul(mul([1, 0, 0, 1, x, y], [c, s, -s, c, 0, 0]), [1, 0, 0, 1, -x, -y]);
};
class Transform {
  constructor(m) { this.m = m || ident(); this.type = 1; this.angle = 0; }
  get matrix() { const [a, b, c, d, e, f] = this.m; return {a, b, c, d, e, f}; }
  setRotate(t, x, y) { for (const v of [t, x, y]) if (!Number.isFinite(v)) throw new TypeError("non-finite argument to setRotate"); this.type = 4; this.angle = t; this.m = rot(t, x, y); }
  setTranslate(x, y) { this.type = 2; this.m = [1, 0, 0, 1, +x, +y]; }
  setScale(x, y) { this.type = 3; this.m = [+x, 0, 0, +y, 0, 0]; }
  setMatrix(o) { this.type = 1; this.m = [o.a, o.b, o.c, o.d, o.e, o.f]; }
}
function parseTransform(s) {
  const out = [];
  for (const [, n, a] of String(s || "").matchAll(/(\w+)\s*\(([^)]*)\)/g)) {
    const v = a.trim().split(/[\s,]+/).map(Number), t = new Transform();
    if (n === "matrix") t.m = v;
    else if (n === "translate") t.setTranslate(v[0], v[1] || 0);
    else if (n === "scale") t.setScale(v[0], v.length > 1 ? v[1] : v[0]);
    else if (n === "rotate") t.setRotate(v[0], v[1] || 0, v[2] || 0);
    out.push(t);
  }
  return out;
}
class TransformList {
  constructor(items) { this.items = items; }
  get numberOfItems() { return this.items.length; }
  get length() { return this.items.length; }
  at(i) { if (!(i >= 0 && i < this.items.length)) throw new Error("IndexSizeError"); return i; }
  getItem(i) { return this.items[this.at(i)]; }
  appendItem(t) { this.items.push(t); return t; }
  initialize(t) { this.items = [t]; return t; }
  clear() { this.items = []; }
  replaceItem(t, i) { this.items[this.at(i)] = t; return t; }
  insertItemBefore(t, i) { this.items.splice(i, 0, t); return t; }
  removeItem(i) { return this.items.splice(this.at(i), 1)[0]; }
  createSVGTransformFromMatrix(o) { const t = new Transform(); t.setMatrix(o); return t; }
  consolidate() { if (!this.items.length) return null; const t = new Transform(this.total()); this.items = [t]; return t; }
  total() { return this.items.reduce((m, t) => mul(m, t.m), ident()); }
}

class Target {
  constructor() { this._l = {}; }
  addEventListener(type, fn, opt) { (this._l[type] = this._l[type] || []).push({fn, once: !!(opt && opt.once)}); }
  removeEventListener(type, fn) { this._l[type] = (this._l[type] || []).filter(x => x.fn !== fn); }
}

class Element extends Target {
  constructor(doc, tag) {
    super();
    this.ownerDocument = doc; this.tagName = this.nodeName = this.localName = tag; this.nodeType = 1;
    this._a = new Map(); this._kids = []; this.parentNode = null; this._style = null; this._tr = null;
  }
  get id() { return this._a.get("id") || ""; }
  set id(v) { this.setAttribute("id", v); }
  get parentElement() { return this.parentNode; }
  get children() { return this._kids.filter(k => k instanceof Element); }
  get childNodes() { return this._kids; }
  get firstChild() { return this._kids[0] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children[this.children.length - 1] || null; }
  get style() { return this._style = this._style || makeStyle(this._a.get("style")); }
  set style(t) { this._style = makeStyle(t); }
  get transform() { return {baseVal: this._tr = this._tr || new TransformList(parseTransform(this._a.get("transform")))}; }
  get className() { return this._a.get("class") || ""; }
  set className(v) { this._a.set("class", String(v)); }
  get classList() {
    const e = this, s = () => new Set(e.className.split(/\s+/).filter(Boolean)), w = x => { e.className = [...x].join(" "); };
    return {add: (...c) => { const x = s(); c.forEach(v => x.add(v)); w(x); }, remove: (...c) => { const x = s(); c.forEach(v => x.delete(v)); w(x); },
      contains: c => s().has(c), toggle: (c, f) => { const x = s(), on = f === undefined ? !x.has(c) : !!f; on ? x.add(c) : x.delete(c); w(x); return on; }};
  }
  get dataset() { return {}; }
  getAttribute(n) { if (n === "style" && this._style) return this._style.cssText; return this._a.has(n) ? this._a.get(n) : null; }
  hasAttribute(n) { return this._a.has(n); }
  setAttribute(n, v) {
    v = String(v);
    this._a.set(n, v);
    if (n === "style") this._style = makeStyle(v);
    if (n === "transform") this._tr = new TransformList(parseTransform(v));
    if (n === "id") this.ownerDocument._ids = null;
  }
  setAttributeNS(ns, n, v) { this.setAttribute(n, v); }
  getAttributeNS(ns, n) { return this.getAttribute(n); }
  removeAttribute(n) { this._a.delete(n); if (n === "style") this._style = null; if (n === "transform") this._tr = null; }
  get textContent() { return this._kids.map(k => k instanceof Element ? k.textContent : k.data).join(""); }
  set textContent(t) { this._kids = t === null || t === "" ? [] : [{nodeType: 3, data: String(t)}]; this.ownerDocument._ids = null; }
  get innerHTML() { return this._kids.map(k => k instanceof Element ? k.outerHTML : k.data.replace(/&/g, "&amp;").replace(/</g, "&lt;")).join(""); }
  set innerHTML(t) { t = t === null ? "" : String(t); this._kids = []; build(this.ownerDocument, this, t); this.ownerDocument._ids = null; }
  get outerHTML() { return "<" + this.tagName + ">" + this.innerHTML + "</" + this.tagName + ">"; }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  appendChild(k) { if (k.parentNode) k.parentNode.removeChild(k); k.parentNode = this; this._kids.push(k); this.ownerDocument._ids = null; return k; }
  append(...ks) { for (const k of ks) typeof k === "string" ? this._kids.push({nodeType: 3, data: k}) : this.appendChild(k); }
  insertBefore(k, r) { const i = this._kids.indexOf(r); k.parentNode = this; this._kids.splice(i < 0 ? this._kids.length : i, 0, k); this.ownerDocument._ids = null; return k; }
  removeChild(k) { this._kids = this._kids.filter(x => x !== k); k.parentNode = null; this.ownerDocument._ids = null; return k; }
  replaceChildren(...ks) { this._kids = []; this.append(...ks); this.ownerDocument._ids = null; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  cloneNode() { const e = new Element(this.ownerDocument, this.tagName); for (const [a, b] of this._a) e._a.set(a, b); return e; }
  *walk() { yield this; for (const k of this._kids) if (k instanceof Element) yield* k.walk(); }
  _match(sel) {
    return sel.split(",").some(s => {
      const m = s.trim().match(/^([\w*-]*)((?:[#.][\w-]+|\[[^\]]*\])*)$/);
      if (!m) throw new Error("selector not supported by the simulated browser: " + sel);
      if (m[1] && m[1] !== "*" && m[1].toLowerCase() !== this.tagName.toLowerCase()) return false;
      return [...m[2].matchAll(/#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/g)].every(q => q[1] ? this.id === q[1] :
        q[2] ? this.classList.contains(q[2]) : q[4] === undefined ? this.hasAttribute(q[3]) : this.getAttribute(q[3]) === q[4]);
    });
  }
  querySelectorAll(sel) { const out = []; for (const e of this.walk()) if (e !== this && e._match(sel)) out.push(e); return out; }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  getElementById(id) { return this.ownerDocument.getElementById(id); }
  createSVGTransform() { return new Transform(); }
  createSVGMatrix() { return new Transform().matrix; }
  createSVGTransformFromMatrix(o) { const t = new Transform(); t.setMatrix(o); return t; }
  getBBox() { return {...boxOf(this.id)}; }       // geometry is not laid out: a fixed box for every element
  getBoundingClientRect() { const b = boxOf(this.id); return {...b, left: b.x, top: b.y, right: b.x + b.width, bottom: b.y + b.height}; }
  getClientRects() { return [this.getBoundingClientRect()]; }
  getCTM() { return new Transform().matrix; }
  getScreenCTM() { return new Transform().matrix; }
  get contentDocument() { return this._doc === undefined ? null : this._doc; }
  get contentWindow() { return this._doc ? {document: this._doc} : null; }
  getSVGDocument() { return this.contentDocument; }
}
function boxOf(id) {
  let h = 7;
  for (const c of id) h = (h * 31 + c.charCodeAt(0)) % 1000003;
  return {x: h % 397 + 0.25, y: h % 211 + 0.5, width: h % 13 + 1, height: h % 7 + 2};
}

class Document extends Target {
  constructor() { super(); this._root = null; this._ids = null; this.nodeType = 9; this.readyState = "loading"; this.title = ""; this.hidden = false; this.visibilityState = "visible"; }
  get documentElement() { return this._root; }
  get rootElement() { return this._root; }
  get body() { return this._root && this._root.querySelector("body"); }
  get head() { return this._root && this._root.querySelector("head"); }
  getElementById(id) {
    if (!this._ids) { this._ids = new Map(); if (this._root) for (const e of this._root.walk()) if (e.id && !this._ids.has(e.id)) this._ids.set(e.id, e); }
    return this._ids.get(String(id)) || null;
  }
  querySelector(s) { return this._root && this._root._match(s) ? this._root : this._root && this._root.querySelector(s); }
  querySelectorAll(s) { return this._root ? this._root.querySelectorAll(s) : []; }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  createElement(t) { return new Element(this, t); }
  createElementNS(ns, t) { return new Element(this, t); }
  createTextNode(t) { return {nodeType: 3, data: String(t)}; }
}

const VOID = new Set(["meta", "link", "br", "img", "input", "hr"]);
// Adds the markup below `parent`; calls hook(element) when an element is complete.
function build(doc, parent, text, hook) {
  const re = /<!--[\s\S]*?-->|<!\[CDATA\[([\s\S]*?)\]\]>|<[!?][^>]*>|<\/([\w:-]+)\s*>|<([\w:-]+)((?:\s+[\w:.-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/g;
  let cur = parent, pos = 0, m;
  const html = doc._html;
  const put = s => { if (s && cur) cur._kids.push({nodeType: 3, data: decode(s)}); };
  while ((m = re.exec(text))) {
    put(text.slice(pos, m.index));
    pos = re.lastIndex;
    if (m[1] !== undefined) put(m[1]);
    else if (m[2]) {
      let e = cur;
      while (e && e.tagName !== m[2] && e !== parent) e = e.parentNode;
      if (e && e.tagName === m[2] && e !== parent) { cur = e.parentNode || null; if (hook) hook(e); }
    } else if (m[3]) {
      const e = new Element(doc, m[3]);
      for (const [, n, a, b, c] of m[4].matchAll(/([\w:.-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) e._a.set(n, decode(a ?? b ?? c ?? ""));
      e.parentNode = cur;
      if (cur) cur._kids.push(e); else if (!doc._root) doc._root = e;
      const empty = m[5] || (html && VOID.has(m[3]));
      if (hook && doc._hookOpen) doc._hookOpen(e);
      if (!empty) {
        cur = e;
        if (html && m[3] === "script") {
          const end = text.indexOf("</script", pos);
          e._kids.push({nodeType: 3, data: text.slice(pos, end < 0 ? text.length : end)});
          pos = re.lastIndex = end < 0 ? text.length : end;
        }
      } else if (hook) hook(e);
    }
  }
  put(text.slice(pos));
}

// ---- one tab -----------------------------------------------------------------------------------------------------
class Tab {
  constructor(job, spec) {
    this.job = job; this.spec = spec; this.now = spec.start; this.q = []; this.seq = 0; this.errors = []; this.log = [];
    this.sockets = []; this.snaps = []; this.timers = new Map(); this.loaded = false; this.shown = null; this.fatal = null; this.trace = [];
  }
  at(t, fn, kind) { const e = {t: Math.max(t, this.now), n: this.seq++, fn, kind}; this.q.push(e); return e; }
  drop(e) { this.q = this.q.filter(x => x !== e); }
  file(rel) {
    rel = decodeURIComponent(rel.replace(/[?#].*$/, ""));
    const f = path.join(this.job.dir, rel);
    return f.startsWith(this.job.dir) && fs.existsSync(f) && fs.statSync(f).isFile() ? fs.readFileSync(f, "utf8") : null;
  }
  delay(name) { const d = this.spec.delays || {}; return d[name] !== undefined ? d[name] : d["*"] || 0.01; }
  error(where, e) { this.errors.push({t: this.now, where, text: String(e && e.stack || e).split("\n").slice(0, 4).join(" | "), label: this.label || null}); }
  call(where, fn, self, ...a) {
    try { return fn.apply(self, a); } catch (e) { this.error(where, e); }
  }
  fire(target, type, ev) {
    ev = Object.assign({type, target, currentTarget: target, preventDefault() {}, stopPropagation() {}}, ev || {});
    const on = "on" + type, ls = (target._l[type] || []).slice();
    const attr = target[on];
    const all = ls.map(l => ({fn: l.fn, once: l.once, k: l.k || 0}));
    if (typeof attr === "function") all.push({fn: attr});
    for (const l of all) {
      if (l.once) target.removeEventListener(type, l.fn);
      this.call(type, typeof l.fn === "function" ? l.fn : l.fn.handleEvent.bind(l.fn), target, ev);
    }
  }
  setup() {
    const tab = this, doc = this.doc = new Document();
    doc._html = true;
    const rnd = (() => { let s = (this.spec.rnd || 1) >>> 0; return () => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return s / 4294967296; }; })();
    const timer = (fn, d, every, frame) => {
      const id = ++this.seq;
      const go = () => {
        this.timers.delete(id);
        if (every) arm(this.now + Math.max(every, 0.004));
        if (typeof fn === "string") this.call("timer", () => vm.runInContext(fn, this.ctx)); else this.call("timer", fn, undefined, frame ? this.now * 1000 : undefined);
      };
      const arm = t => this.timers.set(id, this.at(t, go, "timer"));
      arm(this.now + d);
      return id;
    };
    const clear = id => { const e = this.timers.get(id); if (e) { this.drop(e); this.timers.delete(id); } };
    const frameAt = () => Math.floor(this.now * 60 + 1) / 60 - this.now + (this.spec.hidden ? 1 : 0);
    const w = this.window = {};
    class WebSocket extends Target { constructor(url, proto) { super(); tab.socket(this, url); }
      send() { tab.log.push(["ws.send", tab.now]); }
      close() { tab.pageClosed(this); } }
    Object.assign(WebSocket, {CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3});
    const con = {};
    for (const k of ["log", "error", "warn", "info", "debug", "assert", "table", "time", "timeEnd"]) con[k] = (...a) => { this.log.push(["console." + k, a.map(x => { try { return String(x); } catch (e) { return "?"; } }).join(" ").slice(0, 200)]); };
    const RealDate = Date, epoch = 1.6e12;
    class SimDate extends RealDate { constructor(...a) { a.length ? super(...a) : super(epoch + tab.now * 1000); } static now() { return epoch + tab.now * 1000; } }
    const target = new Target(), at = new URL(this.spec.url);
    if (!/\.html$|\/$/.test(at.pathname)) at.pathname += "/";      // (redirected by the server)
    Object.assign(w, {document: doc, console: con, WebSocket, Date: SimDate, URL, URLSearchParams, location: {href: at.href, origin: at.origin, protocol: at.protocol, hostname: at.hostname, host: at.host, port: at.port, pathname: at.pathname, search: at.search, hash: at.hash, toString() { return at.href; }, reload() { tab.log.push(["reload", tab.now]); }},
      navigator: {userAgent: "sim"}, performance: {now: () => this.now * 1000}, innerWidth: 1280, innerHeight: 720, devicePixelRatio: 1,
      setTimeout: (f, d, ...a) => timer(a.length ? () => f(...a) : f, Math.max(0, (+d || 0) / 1000) + (this.spec.hidden ? 1 : 0)), setInterval: (f, d) => timer(f, Math.max(0.004, (+d || 0) / 1000), Math.max(0.004, (+d || 0) / 1000)),
      clearTimeout: clear, clearInterval: clear, requestAnimationFrame: f => timer(f, frameAt(), 0, true), cancelAnimationFrame: clear,
      queueMicrotask: f => Promise.resolve().then(f), alert() {}, structuredClone: x => JSON.parse(JSON.stringify(x)),
      getComputedStyle: e => e.style, matchMedia: () => ({matches: false, addEventListener() {}}),
      Element, SVGElement: Element, HTMLElement: Element, Node: Element,
      addEventListener: (t, f, o) => target.addEventListener(t, f, o), removeEventListener: (t, f) => target.removeEventListener(t, f), dispatchEvent: () => true});
    this.wtarget = target;
    w.window = w.self = w.globalThis = w.top = w.parent = w;
    this.ctx = vm.createContext(w, {microtaskMode: "afterEvaluate"});
    vm.runInContext("Math.random = this.__rnd", Object.assign(w, {__rnd: rnd}));
    delete w.__rnd;
    doc.defaultView = w;
    doc.location = w.location;
  }
  runScript(src, name) {
    try { new vm.Script(src, {filename: name}).runInContext(this.ctx); } catch (e) { this.error("script " + name, e); }
  }
  winEvent(type, ev) {
    // listeners and the event-handler attribute, in the order in which they were registered
    const t = this.wtarget, ls = (t._l[type] || []).slice();
    const attr = this.window["on" + type];
    const seq = ls.map(l => l.fn);
    if (typeof attr === "function") { const k = this.attrPos && this.attrPos[type] !== undefined ? this.attrPos[type] : seq.length; seq.splice(Math.min(k, seq.length), 0, attr); }
    ev = Object.assign({type, target: this.doc, currentTarget: this.window, preventDefault() {}, stopPropagation() {}}, ev || {});
    for (const f of seq) this.call(type, f, this.window, ev);
  }
  navigate() {
    this.setup();
    const html = this.file("index.html");
    if (html === null) { this.fatal = "the page does not exist"; return; }
    // Tokenise once into a list of steps; scripts block the parser.
    const doc = this.doc;
    let t = this.now + this.delay("index.html");
    const steps = [], deferred = [];
    const shadow = new Document();
    shadow._html = true;
    const map = new Map();
    const mk = e => { const c = new Element(doc, e.tagName); for (const [a, b] of e._a) c._a.set(a, b); map.set(e, c); return c; };
    shadow._hookOpen = e => steps.push(["open", e]);
    build(shadow, null, html, e => steps.push(["close", e]));
    const pendingLoads = new Set();
    let parsed = false;
    const maybeLoad = () => {
      if (!parsed || pendingLoads.size || this.loaded || this.loading) return;
      this.loading = true;
      this.at(this.now, () => { doc.readyState = "complete"; this.loaded = true; this.trace.push(["load", this.now]); this.winEvent("load"); }, "load");
    };
    const resource = (what, d, fn) => { pendingLoads.add(what); this.at(this.now + d, () => { pendingLoads.delete(what); fn(); maybeLoad(); }, "resource"); };
    let i = 0;
    const go = () => {
      while (i < steps.length) {
        const [kind, e] = steps[i++];
        if (kind === "open") {
          const c = mk(e), p = e.parentNode ? map.get(e.parentNode) : null;
          c.parentNode = p;
          if (p) p._kids.push(c); else if (!doc._root) doc._root = c;
          doc._ids = null;
          if (e.tagName === "body") for (const [a, b] of e._a) if (/^on/.test(a)) {
            const type = a.slice(2);
            this.attrPos = this.attrPos || {};
            this.attrPos[type] = (this.wtarget._l[type] || []).length;
            let fn = null;
            this.window[a] = ev => { if (!fn) fn = vm.runInContext("(function(event){" + b + "\n})", this.ctx); return fn.call(this.window, ev); };
          }
          if (e.tagName === "object" || e.tagName === "iframe" || e.tagName === "embed") {
            const src = e._a.get("data") || e._a.get("src");
            resource(src, this.delay("svg"), () => {
              const text = this.file(src);
              if (text === null) { this.error("object", "no such file: " + src); return; }
              const d = new Document();
              build(d, null, text);
              d.readyState = "complete";
              d.defaultView = {document: d};
              c._doc = d;
              this.svg = this.svg || d;
              this.trace.push(["svg", this.now]);
              this.fire(c, "load");
              const on = c._a.get("onload");
              if (on) this.call("onload", vm.runInContext("(function(event){" + on + "\n})", this.ctx), c, {});
            });
          }
        } else {
          const c = map.get(e);
          for (const k of e._kids) if (!(k instanceof Element)) c._kids.push(k);
          if (e.tagName === "title") doc.title = e.textContent;
          if (e.tagName === "script") {
            const src = e._a.get("src"), type = e._a.get("type") || "";
            if (type && !/javascript|module/.test(type)) continue;
            const module = type === "module";
            if (!src) { this.runScript((module ? "'use strict';{" : "") + c.textContent + (module ? "}" : ""), "inline"); continue; }
            const text = this.file(src), d = this.delay(path.basename(src));
            if (text === null) { this.error("script", "no such file: " + src); continue; }
            const run = () => this.runScript(text, src);
            if (e._a.has("async") && !module) { resource(src, d, run); continue; }
            if (e._a.has("defer") || module) { deferred.push(run); continue; }
            this.at(this.now + d, () => { run(); go(); }, "script");
            return;
          }
        }
      }
      deferred.forEach(f => f());
      doc.readyState = "interactive";
      this.fire(doc, "DOMContentLoaded");
      this.winEvent("DOMContentLoaded");
      parsed = true;
      maybeLoad();
    };
    this.at(t, go, "parse");
  }
  // -- the other end of the web socket: the rendering server of the job
  socket(ws, url) {
    const s = {ws, url: String(url), t: this.now, open: false, dead: false, got: 0, after: this.loaded};
    this.sockets.push(s);
    ws.readyState = 0; ws.url = s.url; ws.bufferedAmount = 0; ws.protocol = "";
    const norm = u => u.replace(/\/$/, "");
    const d = this.delay("ws");
    if (norm(s.url) !== norm(this.job.address)) {
      s.wrong = true;
      this.at(this.now + d, () => { ws.readyState = 3; this.fire(ws, "error"); this.fire(ws, "close", {code: 1006}); }, "net");
      return;
    }
    this.at(this.now + d, () => {
      if (s.dead) return;
      ws.readyState = 1; s.open = true; s.opened = this.now;
      this.trace.push(["open", this.now]);
      this.fire(ws, "open");
      // everything the server sends from now on: the description first, then each later state
      let last = this.now, k = 0;
      for (const m of this.job.messages) {
        if (m.label !== "init" && m.t < s.opened) continue;
        const j = (this.spec.jitter || [0.001]), dl = j[k++ % j.length];
        last = Math.max(last, Math.max(m.t, s.opened) + dl);
        s.plan = (s.plan || 0) + 1;
        this.at(last, () => {
          if (s.dead) return;
          this.snap();
          this.label = m.id;
          s.got++;
          this.last = m.id;
          this.delivered = (this.delivered || 0) + 1;
          this.lastT = this.now;
          this.trace.push(["msg", this.now, m.id]);
          this.fire(ws, "message", {data: m.text, origin: s.url});
          this.fresh = true;
        }, "msg");
      }
    }, "net");
    for (const t of this.spec.cuts || []) this.at(t, () => {
      if (s.dead || !s.open) return;
      this.snap();
      s.dead = true; s.cut = true; ws.readyState = 3;
      this.cut = (this.cut || 0) + 1;
      this.fire(ws, "error");
      this.fire(ws, "close", {code: 1006, wasClean: false});
      this.fresh = true;
    }, "net");
  }
  pageClosed(ws) {
    const s = this.sockets.find(x => x.ws === ws);
    if (s && !s.dead && !s.wrong) { s.dead = true; s.byPage = this.now; ws.readyState = 3; this.at(this.now + 0.01, () => this.fire(ws, "close", {code: 1000, wasClean: true}), "net"); }
  }
  // -- what is displayed now (if the page has had the time to draw)
  snap() {
    if (!this.fresh || this.last === undefined) return;
    const pending = this.q.some(e => e.kind === "timer");
    if (pending && this.now - this.lastT < 1.5) return;
    this.fresh = false;
    this.snaps.push({after: this.last, n: this.delivered, t: this.now, cut: !!this.cut, show: this.look()});
  }
  look() {
    const out = {};
    if (!this.svg) return out;
    for (const id of this.job.watch) {
      const e = this.svg.getElementById(id);
      if (!e) { out[id] = null; continue; }
      const a = {};
      for (const n of ["x", "y", "width", "height", "fill", "stroke", "visibility", "display", "opacity"]) if (e._a.has(n)) a[n] = e._a.get(n);
      out[id] = {text: e.textContent, a, fill: e.style.fill || a.fill || "", stroke: e.style.stroke || a.stroke || "",
        h: e.style.height || "", w: e.style.width || "", vis: (e.style.display || a.display || "") === "none" || (e.style.visibility || a.visibility || "") === "hidden" || +(e.style.opacity || a.opacity || 1) === 0 ? 0 : 1,
        m: e.transform.baseVal.total()};
    }
    return out;
  }
  run() {
    this.at(this.now, () => this.navigate(), "nav");
    let steps = 0;
    const end = this.job.end;
    while (this.q.length) {
      let b = 0;
      for (let i = 1; i < this.q.length; i++) if (this.q[i].t < this.q[b].t || (this.q[i].t === this.q[b].t && this.q[i].n < this.q[b].n)) b = i;
      if (this.q[b].t > end || ++steps > 200000) break;
      const e = this.q.splice(b, 1)[0];
      this.now = e.t;
      if (this.fresh && e.kind !== "timer" && e.kind !== "msg") this.snap();
      e.fn();
      if (this.ctx) try { vm.runInContext("0", this.ctx); } catch (x) { /* microtasks only */ }
    }
    this.now = Math.max(this.now, end);
    this.snap();
    return {snaps: this.snaps, errors: this.errors, log: this.log, trace: this.trace, fatal: this.fatal, delivered: this.delivered || 0, title: this.doc ? this.doc.title : "",
      sockets: this.sockets.map(s => ({url: s.url, t: s.t, wrong: !!s.wrong, cut: !!s.cut, byPage: s.byPage === undefined ? null : s.byPage, opened: s.opened === undefined ? null : s.opened, got: s.got}))};
  }
}

const job = JSON.parse(fs.readFileSync(0, "utf8"));
job.dir = path.resolve(job.dir) + "/";
const boxes = {};
for (const id of job.watch) boxes[id] = boxOf(id);
// the picture before any script touched it
const svg0 = (() => { const t = new Tab(job, {start: 0}); const text = t.file(job.svg); if (text === null) return null; const d = new Document(); build(d, null, text); t.svg = d; return t.look(); })();
process.stdout.write(JSON.stringify({tabs: job.tabs.map(s => new Tab(job, s).run()), initial: svg0, boxes}));
