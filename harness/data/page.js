// A small browser for the checks of the demo pages: an HTML parser, a DOM, the
// parts of jQuery that such a page may use, and virtual requests and timers.
//
// It is driven by lines of JSON on its standard input and answers each with a
// line on its standard output. Requests of the page are handed to the driver,
// which decides when and in which order they are answered. Something that this
// browser cannot do ends the case with "unsupported", which is no verdict.
'use strict';
const vm = require('vm');
const fs = require('fs');
const readline = require('readline');

class Unsupported extends Error {}

// ------------------------------------------------------------------ entities
const NAMED = { lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", nbsp: '\u00a0', copy: '\u00a9', times: '\u00d7', hellip: '\u2026' };
function decode(s) {
  return s.replace(/&(?:#[xX]([0-9a-fA-F]+)|#([0-9]+)|([a-zA-Z][a-zA-Z0-9]*));?/g, (all, hex, dec, name) => {
    if (hex || dec) {
      const n = hex ? parseInt(hex, 16) : parseInt(dec, 10);
      return n === 0 || n > 0x10ffff || (n >= 0xd800 && n < 0xe000) ? '\ufffd' : String.fromCodePoint(n);
    }
    return Object.prototype.hasOwnProperty.call(NAMED, name) ? NAMED[name] : all;
  });
}

// ------------------------------------------------------------------ DOM
const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);

class Node {
  constructor(doc) { this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; this.listeners = {}; }
  get children() { return this.childNodes.filter((n) => n instanceof Element); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get childElementCount() { return this.children.length; }
  get nextSibling() { const c = this.parentNode ? this.parentNode.childNodes : []; return c[c.indexOf(this) + 1] || null; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  get isConnected() { return this.ownerDocument.contains(this); }
  insertBefore(n, ref) {
    if (n instanceof Fragment) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
    if (!(n instanceof Node)) throw new TypeError('not a node: ' + String(n));
    if (n.contains(this)) throw new TypeError('a node cannot contain itself');
    n.remove();
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) { n.remove(); return n; }
  replaceChild(n, old) { this.insertBefore(n, old); old.remove(); return old; }
  remove() {
    if (!this.parentNode) return;
    const c = this.parentNode.childNodes;
    c.splice(c.indexOf(this), 1);
    this.parentNode = null;
  }
  asNode(x) { return x instanceof Node ? x : new Text(this.ownerDocument, String(x)); }
  append(...xs) { for (const x of xs) this.appendChild(this.asNode(x)); }
  prepend(...xs) { const f = this.firstChild; for (const x of xs) this.insertBefore(this.asNode(x), f); }
  before(...xs) { for (const x of xs) this.parentNode.insertBefore(this.asNode(x), this); }
  after(...xs) { const r = this.nextSibling; for (const x of xs) this.parentNode.insertBefore(this.asNode(x), r); }
  replaceWith(...xs) { this.before(...xs); this.remove(); }
  replaceChildren(...xs) { for (const c of [...this.childNodes]) c.remove(); this.append(...xs); }
  get textContent() { return this.childNodes.map((n) => n.textContent).join(''); }
  set textContent(s) { this.replaceChildren(...(s === null || s === undefined || s === '' ? [] : [String(s)])); }
  cloneNode(deep) {
    const c = this.shallow();
    if (deep) for (const n of this.childNodes) c.appendChild(n.cloneNode(true));
    return c;
  }
  *walk() { for (const c of [...this.childNodes]) { yield c; yield* c.walk(); } }
  querySelectorAll(sel) { const m = compile(sel); return [...this.walk()].filter((n) => n instanceof Element && m(n)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  getElementsByClassName(t) { return this.querySelectorAll('.' + t); }
  addEventListener(type, f, opt) { (this.listeners[type] = this.listeners[type] || []).push({ f, once: !!(opt && opt.once) }); }
  removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] || []).filter((l) => l.f !== f); }
  dispatchEvent(e) {
    e.target = e.target || this;
    const path = [];
    for (let n = this; n; n = n.parentNode) path.push(n);
    if (path[path.length - 1] === this.ownerDocument) path.push(this.ownerDocument.defaultView);
    for (const n of e.bubbles ? path : path.slice(0, 1)) {
      e.currentTarget = n;
      const on = n['on' + e.type];
      const ls = [...((n.listeners && n.listeners[e.type]) || [])];
      if (typeof on === 'function') ls.unshift({ f: on });
      for (const l of ls) {
        if (l.once) n.removeEventListener(e.type, l.f);
        const r = typeof l.f === 'function' ? l.f.call(n, e) : l.f.handleEvent(e);
        if (r === false) e.preventDefault();
        if (e.stoppedNow) break;
      }
      if (e.stopped) break;
    }
    return !e.defaultPrevented;
  }
}
class Text extends Node {
  constructor(doc, data) { super(doc); this.data = data; this.nodeType = 3; this.nodeName = '#text'; }
  get textContent() { return this.data; }
  set textContent(s) { this.data = String(s); }
  get nodeValue() { return this.data; }
  shallow() { return new Text(this.ownerDocument, this.data); }
}
class Fragment extends Node {
  constructor(doc) { super(doc); this.nodeType = 11; this.nodeName = '#document-fragment'; }
  shallow() { return new Fragment(this.ownerDocument); }
}
class Evt {
  constructor(type, init) { this.type = type; this.bubbles = !!(init && init.bubbles); this.defaultPrevented = false; }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = this.stoppedNow = true; }
}
class Element extends Node {
  constructor(doc, tag) {
    super(doc); this.localName = tag.toLowerCase(); this.nodeType = 1; this.attrs = {};
    this.style = new Proxy({ setProperty() {}, removeProperty() {} }, {}); this.dataset = {};
  }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  getAttribute(k) { k = k.toLowerCase(); return k in this.attrs ? this.attrs[k] : null; }
  hasAttribute(k) { return k.toLowerCase() in this.attrs; }
  setAttribute(k, v) { this.attrs[k.toLowerCase()] = String(v); this.inline(k.toLowerCase()); }
  removeAttribute(k) { delete this.attrs[k.toLowerCase()]; }
  inline(k) {
    if (!/^on/.test(k)) return;
    const w = this.ownerDocument.defaultView, code = this.attrs[k];
    let f = null; // compiled when first run, as in a browser
    this[k] = function (event) {
      f = f || vm.runInContext('(function (event) {' + code + '\n})', w.sandbox, { filename: k });
      return f.call(this, event);
    };
  }
  get id() { return this.attrs.id || ''; } set id(v) { this.attrs.id = String(v); }
  get className() { return this.attrs.class || ''; } set className(v) { this.attrs.class = String(v); }
  get classList() {
    const e = this, l = () => e.className.split(/\s+/).filter(Boolean);
    return { add: (...x) => { e.className = [...new Set([...l(), ...x])].join(' '); }, remove: (...x) => { e.className = l().filter((c) => !x.includes(c)).join(' '); },
      contains: (x) => l().includes(x), toggle: (x) => { e.className = (l().includes(x) ? l().filter((c) => c !== x) : [...l(), x]).join(' '); } };
  }
  get name() { return this.attrs.name || ''; } set name(v) { this.attrs.name = String(v); }
  get type() { return this.attrs.type || (this.localName === 'input' ? 'text' : this.localName === 'button' ? 'submit' : ''); } set type(v) { this.attrs.type = String(v); }
  get action() { return this.attrs.action || ''; } set action(v) { this.attrs.action = String(v); }
  get method() { return (this.attrs.method || 'get').toLowerCase(); } set method(v) { this.attrs.method = String(v); }
  get value() {
    if (this.localName === 'textarea') return (this.dirty !== undefined ? this.dirty : this.textContent).replace(/\r\n?/g, '\n');
    if (this.localName === 'select') { const o = this.options, s = o.find((x) => x.selected) || o[0]; return s ? s.value : ''; }
    if (this.localName === 'option') return this.attrs.value !== undefined ? this.attrs.value : this.textContent.trim();
    if (this.dirty !== undefined) return this.dirty;
    if (this.attrs.value !== undefined) return this.attrs.value;
    return this.type === 'radio' || this.type === 'checkbox' ? 'on' : '';
  }
  set value(v) { this.dirty = String(v); }
  get options() { return this.querySelectorAll('option'); }
  get selected() { return this.dirtySel !== undefined ? this.dirtySel : 'selected' in this.attrs; } set selected(b) { this.dirtySel = !!b; }
  get defaultValue() { return this.localName === 'textarea' ? this.textContent : this.attrs.value || ''; }
  get checked() { return this.dirtyChk !== undefined ? this.dirtyChk : 'checked' in this.attrs; }
  set checked(b) {
    this.dirtyChk = !!b;
    if (b && this.type === 'radio') this.ungroup();
  }
  ungroup() { for (const r of this.group()) if (r !== this) r.dirtyChk = false; }
  group() { return this.ownerDocument.querySelectorAll('input').filter((r) => r.type === 'radio' && r.name === this.name && r.form === this.form); }
  get disabled() { return 'disabled' in this.attrs; } set disabled(b) { if (b) this.attrs.disabled = ''; else delete this.attrs.disabled; }
  get hidden() { return 'hidden' in this.attrs; } set hidden(b) { if (b) this.attrs.hidden = ''; else delete this.attrs.hidden; }
  get form() { for (let n = this.parentNode; n; n = n.parentNode) if (n.localName === 'form') return n; return null; }
  get elements() {
    const l = this.querySelectorAll('input, textarea, select, button');
    return new Proxy(l, { get: (t, k) => {
      if (k in t || typeof k === 'symbol') return t[k];
      const m = t.filter((e) => e.name === k || e.id === k);
      if (m.length > 1) { const r = [...m]; r.value = (m.find((x) => x.checked) || { value: '' }).value; return r; }
      return m[0];
    } });
  }
  get rows() { return this.localName === 'textarea' ? Number(this.attrs.rows) : this.querySelectorAll('tr'); }
  get cells() { return this.children.filter((c) => c.localName === 'td' || c.localName === 'th'); }
  get tBodies() { return this.querySelectorAll('tbody'); }
  insertRow(i) { const r = new Element(this.ownerDocument, 'tr'); const p = this.localName === 'table' ? this.tBodies[0] || this : this; p.insertBefore(r, i === undefined || i < 0 ? null : p.children[i] || null); return r; }
  insertCell(i) { const r = new Element(this.ownerDocument, 'td'); this.insertBefore(r, i === undefined || i < 0 ? null : this.children[i] || null); return r; }
  deleteRow(i) { const r = this.rows; r[i < 0 ? r.length - 1 : i].remove(); }
  get content() { return this.localName === 'template' ? this : undefined; }
  get innerText() { return this.textContent; } set innerText(s) { this.textContent = s; }
  get innerHTML() { return this.childNodes.map(serialize).join(''); }
  set innerHTML(h) {
    if (this.localName === 'textarea' || this.localName === 'title') { this.textContent = decode(String(h)); return; }
    this.replaceChildren(); parseInto(this, h === null ? '' : String(h), false);
  }
  get outerHTML() { return serialize(this); }
  insertAdjacentHTML(where, h) {
    const f = new Fragment(this.ownerDocument); parseInto(f, String(h), false);
    const at = where.toLowerCase();
    if (at === 'beforeend') this.appendChild(f); else if (at === 'afterbegin') this.insertBefore(f, this.firstChild);
    else if (at === 'beforebegin') this.before(f); else this.after(f);
  }
  insertAdjacentElement(where, e) { const at = where.toLowerCase(); if (at === 'beforeend') this.append(e); else if (at === 'afterbegin') this.prepend(e); else if (at === 'beforebegin') this.before(e); else this.after(e); return e; }
  insertAdjacentText(where, s) { this.insertAdjacentElement(where, new Text(this.ownerDocument, s)); }
  matches(sel) { return compile(sel)(this); }
  closest(sel) { const m = compile(sel); for (let n = this; n instanceof Element; n = n.parentNode) if (m(n)) return n; return null; }
  focus() {} blur() {} select() {} scrollIntoView() {}
  click() { clickOn(this); }
  submit() { this.ownerDocument.defaultView.submitted(this, null); }
  requestSubmit(b) { if (this.dispatchEvent(new Evt('submit', { bubbles: true }))) this.ownerDocument.defaultView.submitted(this, b || null); }
  shallow() { const e = new Element(this.ownerDocument, this.localName); for (const k in this.attrs) e.setAttribute(k, this.attrs[k]); return e; }
}
for (const c of [Node, Element, Text, Fragment]) {
  // nothing that a page asks of a node may be taken for something that is absent
  Object.freeze(c);
}
class Document extends Node {
  constructor(win) { super(null); this.ownerDocument = this; this.defaultView = win; this.nodeType = 9; this.nodeName = '#document'; this.readyState = 'loading'; this.cookie = ''; }
  get documentElement() { return this.querySelector('html'); }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
  get forms() { const l = this.querySelectorAll('form'); for (const f of l) if (f.name) l[f.name] = f; return l; }
  get title() { const t = this.querySelector('title'); return t ? t.textContent : ''; } set title(s) { const t = this.querySelector('title'); if (t) t.textContent = s; }
  getElementById(id) { for (const n of this.walk()) if (n instanceof Element && n.attrs.id === String(id)) return n; return null; }
  getElementsByName(x) { return [...this.walk()].filter((n) => n instanceof Element && n.attrs.name === x); }
  createElement(t) { return new Element(this, String(t)); }
  createTextNode(s) { return new Text(this, String(s)); }
  createDocumentFragment() { return new Fragment(this); }
  write() { throw new Unsupported('document.write'); }
}

function esc(s) { return s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/\u00a0/g, '&nbsp;'); }
function serialize(n) {
  if (n instanceof Text) return n.parentNode && /^(script|style)$/.test(n.parentNode.localName || '') ? n.data : esc(n.data);
  const a = Object.keys(n.attrs).map((k) => ' ' + k + '="' + esc(n.attrs[k]).replace(/"/g, '&quot;') + '"').join('');
  return '<' + n.localName + a + '>' + (VOID.has(n.localName) ? '' : n.childNodes.map(serialize).join('') + '</' + n.localName + '>');
}

// parseInto appends what the markup describes.
function parseInto(root, h, whole) {
  const doc = root.ownerDocument;
  const stack = [root];
  const top = () => stack[stack.length - 1];
  const text = (s) => { if (s !== '') { const l = top().lastChild; if (l instanceof Text) l.data += s; else top().appendChild(new Text(doc, s)); } };
  const closes = { tr: ['tr', 'td', 'th'], td: ['td', 'th'], th: ['td', 'th'], li: ['li'], p: ['p'], option: ['option'] };
  let i = 0;
  while (i < h.length) {
    if (h[i] !== '<') { let j = h.indexOf('<', i); if (j < 0) j = h.length; text(decode(h.slice(i, j))); i = j; continue; }
    if (h.startsWith('<!--', i)) { const j = h.indexOf('-->', i + 4); i = j < 0 ? h.length : j + 3; continue; }
    if (/^<[!?]/.test(h.slice(i, i + 2))) { const j = h.indexOf('>', i); i = j < 0 ? h.length : j + 1; continue; }
    let m = /^<\/([a-zA-Z][^\s>\/]*)[^>]*>/.exec(h.slice(i, i + 2000));
    if (m) {
      const t = m[1].toLowerCase();
      for (let k = stack.length - 1; k > 0; k--) if (stack[k].localName === t) { stack.length = k; break; }
      i += m[0].length; continue;
    }
    m = /^<([a-zA-Z][^\s>\/]*)/.exec(h.slice(i, i + 2000));
    if (!m) { if (h[i + 1] === '/') { const j = h.indexOf('>', i); i = j < 0 ? h.length : j + 1; } else { text('<'); i++; } continue; }
    const tag = m[1].toLowerCase(), e = new Element(doc, tag);
    i += m[0].length;
    for (;;) { // attributes
      const a = /^[\s\/]*(?:([^\s>\/=][^\s>\/=]*)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?)?/.exec(h.slice(i));
      i += a[0].length;
      if (a[1] === undefined) break;
      const k = a[1].toLowerCase();
      if (!(k in e.attrs)) e.setAttribute(k, decode(a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] || ''));
      if (k.startsWith('data-')) e.dataset[k.slice(5)] = e.attrs[k];
    }
    if (h[i] === '>') i++;
    if (closes[tag]) while (stack.length > 1 && closes[tag].includes(top().localName)) stack.pop();
    top().appendChild(e);
    if (tag === 'input' && e.type === 'radio' && 'checked' in e.attrs) e.ungroup(); // the last one wins
    if (VOID.has(tag)) continue;
    if (['script', 'style', 'textarea', 'title', 'xmp', 'iframe', 'noscript'].includes(tag)) {
      const rest = h.slice(i), end = new RegExp('</' + tag + '[\\s/>]', 'i').exec(rest);
      let body = end ? rest.slice(0, end.index) : rest;
      i += body.length;
      if (end) { const j = h.indexOf('>', i); i = j < 0 ? h.length : j + 1; }
      if (tag === 'textarea') body = body.replace(/^\r?\n/, '');
      if (tag === 'textarea' || tag === 'title') body = decode(body);
      if (body !== '') e.appendChild(new Text(doc, body));
      if (tag === 'script' && whole) doc.defaultView.script(e);
      continue;
    }
    stack.push(e);
  }
}

// ------------------------------------------------------------------ selectors
function compile(sel) {
  const alts = splitTop(sel, ',').map((s) => complex(s.trim()));
  return (e) => alts.some((m) => m(e));
}
function splitTop(s, sep) {
  const r = []; let depth = 0, q = '', cur = '';
  for (const c of s) {
    if (q) { if (c === q) q = ''; } else if (c === '"' || c === "'") q = c; else if (c === '[' || c === '(') depth++; else if (c === ']' || c === ')') depth--;
    if (c === sep && !depth && !q) { r.push(cur); cur = ''; } else cur += c;
  }
  r.push(cur); return r;
}
function complex(s) {
  const parts = []; // [compound, combinator before it]
  let i = 0, comb = ' ';
  while (i < s.length) {
    const w = /^\s*([>+~]?)\s*/.exec(s.slice(i));
    if (parts.length || w[1]) comb = w[1] || ' ';
    i += w[0].length;
    const c = /^(?:\*|[\w-]+|#[\w-]+|\.[\w-]+|\[[^\]]*\]|:[\w-]+(?:\((?:[^()]|\([^)]*\))*\))?)+/.exec(s.slice(i));
    if (!c) throw new Unsupported('selector ' + s);
    parts.push([compound(c[0]), comb]); i += c[0].length;
  }
  const at = (e, k) => {
    if (!parts[k][0](e)) return false;
    if (k === 0) return true;
    switch (parts[k][1]) {
      case '>': return e.parentNode instanceof Element && at(e.parentNode, k - 1);
      case ' ': for (let n = e.parentNode; n instanceof Element; n = n.parentNode) if (at(n, k - 1)) return true; return false;
      default: throw new Unsupported('selector ' + s);
    }
  };
  return (e) => at(e, parts.length - 1);
}
function compound(s) {
  const tests = [];
  s.replace(/(\*)|^([\w-]+)|#([\w-]+)|\.([\w-]+)|\[\s*([\w-]+)\s*(?:([~|^$*]?=)\s*(?:"([^"]*)"|'([^']*)'|([^\]]*?)))?\s*\]|:([\w-]+)(?:\(((?:[^()]|\([^)]*\))*)\))?/g, (all, star, tag, id, cls, an, op, a1, a2, a3, ps, arg) => {
    if (star) return;
    if (tag) tests.push((e) => e.localName === tag.toLowerCase());
    else if (id) tests.push((e) => e.attrs.id === id);
    else if (cls) tests.push((e) => e.className.split(/\s+/).includes(cls));
    else if (an) {
      const v = a1 !== undefined ? a1 : a2 !== undefined ? a2 : a3;
      tests.push((e) => {
        const x = e.getAttribute(an);
        if (x === null) return false;
        switch (op) { case undefined: return true; case '=': return x === v; case '^=': return x.startsWith(v); case '$=': return x.endsWith(v); case '*=': return x.includes(v); case '~=': return x.split(/\s+/).includes(v); default: throw new Unsupported('selector ' + s); }
      });
    } else switch (ps) {
      case 'checked': tests.push((e) => (e.localName === 'option' ? e.selected : e.checked)); break;
      case 'radio': case 'checkbox': case 'text': case 'submit': tests.push((e) => e.localName === 'input' && e.type === ps); break;
      case 'input': tests.push((e) => /^(input|textarea|select|button)$/.test(e.localName)); break;
      case 'selected': tests.push((e) => e.selected); break;
      case 'not': { const m = compile(arg); tests.push((e) => !m(e)); break; }
      case 'first-child': tests.push((e) => e.parentNode && e.parentNode.children[0] === e); break;
      case 'last-child': tests.push((e) => e.parentNode && e.parentNode.lastElementChild === e); break;
      case 'disabled': tests.push((e) => e.disabled); break;
      case 'enabled': tests.push((e) => !e.disabled); break;
      case 'visible': break;
      default: throw new Unsupported('selector ' + s);
    }
  });
  return (e) => tests.every((t) => t(e));
}

// ------------------------------------------------------------------ jQuery
function makeJQuery(win) {
  const doc = win.document;
  const strict = (o) => new Proxy(o, { get(t, k, r) {
    if ((k === 'on' || k === 'off') && win.jq < 1.07) return undefined;
    if (k in t || typeof k === 'symbol' || /^\d+$/.test(k) || k === 'then' || k === 'toJSON') return Reflect.get(t, k, r);
    throw new Unsupported('jQuery member ' + String(k));
  } });
  const build = (h) => { const f = new Fragment(doc); parseInto(f, h, false); return [...f.childNodes]; };
  const content = (x) => x === null || x === undefined ? [] : x instanceof JQ ? [...x.list] : x instanceof Node ? [x] : Array.isArray(x) ? x.flatMap(content) : typeof x === 'number' ? [new Text(doc, String(x))]
    : /<|&#?\w+;/.test(String(x)) ? build(String(x)) : [new Text(doc, String(x))];
  const matcher = (x) => typeof x === 'function' ? (e, i) => x.call(e, i, e) : x instanceof JQ ? (e) => x.list.includes(e) : x instanceof Node ? (e) => e === x : compile(x);
  class JQ {
    constructor(list, prev) { this.list = [...new Set(list)]; this.prev = prev || null; this.length = this.list.length; this.list.forEach((e, i) => { this[i] = e; }); return strict(this); }
    mk(l) { return new JQ(l, this); }
    get selector() { return ''; }
    [Symbol.iterator]() { return this.list[Symbol.iterator](); }
    size() { return this.length; }
    get(i) { return i === undefined ? [...this.list] : this.list[i < 0 ? this.length + i : i]; }
    toArray() { return [...this.list]; }
    eq(i) { const e = this.get(i); return this.mk(e ? [e] : []); }
    first() { return this.eq(0); } last() { return this.eq(-1); } end() { return this.prev || this.mk([]); }
    slice(a, b) { return this.mk(this.list.slice(a, b)); }
    each(f) { this.list.every((e, i) => f.call(e, i, e) !== false); return this; }
    map(f) { return this.mk(this.list.flatMap((e, i) => { const r = f.call(e, i, e); return r === null || r === undefined ? [] : [r].flat(); })); }
    filter(x) { return this.mk(this.list.filter(matcher(x))); }
    not(x) { const m = matcher(x); return this.mk(this.list.filter((e, i) => !m(e, i))); }
    is(x) { return this.list.some(matcher(x)); }
    index(x) { return x === undefined ? (this.length ? this.list[0].parentNode.children.indexOf(this.list[0]) : -1) : this.list.indexOf(x instanceof JQ ? x.list[0] : x); }
    add(x) { return this.mk([...this.list, ...$(x).list]); }
    find(s) { return this.mk(this.list.flatMap((e) => e.querySelectorAll(s))); }
    has(s) { return this.mk(this.list.filter((e) => e.querySelectorAll(s).length)); }
    children(s) { const l = this.mk(this.list.flatMap((e) => e.children)); return s ? l.filter(s) : l; }
    contents() { return this.mk(this.list.flatMap((e) => e.childNodes)); }
    parent() { return this.mk(this.list.map((e) => e.parentNode).filter(Boolean)); }
    closest(s) { return this.mk(this.list.map((e) => e.closest(s)).filter(Boolean)); }
    into(x, put) {
      // the last target gets the nodes themselves, the others copies
      const last = this.length - 1;
      this.list.forEach((e, i) => put(e, (typeof x === 'function' ? content(x.call(e, i, e.innerHTML)) : content(x)).map((n) => (i < last ? n.cloneNode(true) : n))));
      return this;
    }
    append(...xs) { for (const x of xs) this.into(x, (e, ns) => ns.forEach((n) => e.appendChild(n))); return this; }
    prepend(...xs) { for (const x of xs) this.into(x, (e, ns) => { const f = e.firstChild; ns.forEach((n) => e.insertBefore(n, f)); }); return this; }
    before(x) { return this.into(x, (e, ns) => e.before(...ns)); }
    after(x) { return this.into(x, (e, ns) => e.after(...ns)); }
    replaceWith(x) { return this.into(x, (e, ns) => e.replaceWith(...ns)); }
    appendTo(x) { $(x).append(this); return this; }
    prependTo(x) { $(x).prepend(this); return this; }
    insertAfter(x) { $(x).after(this); return this; }
    insertBefore(x) { $(x).before(this); return this; }
    empty() { return this.each((i, e) => e.replaceChildren()); }
    remove(s) { (s ? this.filter(s) : this).each((i, e) => e.remove()); return this; }
    detach() { return this.remove(); }
    clone() { return this.mk(this.list.map((e) => e.cloneNode(true))); }
    text(s) {
      if (s === undefined || (typeof s === 'object' && win.jq < 1.09)) return this.list.map((e) => e.textContent).join('');
      return this.each((i, e) => { e.textContent = typeof s === 'function' ? s.call(e, i, e.textContent) : s; });
    }
    html(h) {
      if (h === undefined) return this.length ? this.list[0].innerHTML : undefined;
      if (typeof h === 'string') return this.each((i, e) => { e.innerHTML = h; });
      this.empty(); return this.append(h);
    }
    val(v) {
      if (v === undefined) return this.length ? this.list[0].value : undefined;
      return this.each((i, e) => { if (Array.isArray(v)) e.checked = v.includes(e.value); else e.value = v; });
    }
    attr(k, v) {
      if (typeof k === 'object') { for (const x in k) this.attr(x, k[x]); return this; }
      if (v === undefined) { if (!this.length) return undefined; const e = this.list[0]; if (k === 'checked') return e.checked ? 'checked' : undefined; if (k === 'value') return e.value; const r = e.getAttribute(k); return r === null ? undefined : r; }
      return this.each((i, e) => { const x = typeof v === 'function' ? v.call(e, i, e.getAttribute(k)) : v; if (k === 'checked') e.checked = !!x; else if (k === 'value') e.value = x; else e.setAttribute(k, x); });
    }
    prop(k, v) { if (v === undefined) return this.length ? this.list[0][k] : undefined; return this.each((i, e) => { e[k] = v; }); }
    removeAttr(k) { return this.each((i, e) => { if (k === 'checked') e.checked = false; e.removeAttribute(k); }); }
    addClass(c) { return this.each((i, e) => e.classList.add(...c.split(/\s+/))); }
    removeClass(c) { return this.each((i, e) => e.classList.remove(...c.split(/\s+/))); }
    toggleClass(c) { return this.each((i, e) => e.classList.toggle(c)); }
    hasClass(c) { return this.list.some((e) => e.classList.contains(c)); }
    css(k, v) { return v === undefined && typeof k === 'string' ? '' : this; }
    show() { return this; } hide() { return this; } focus() { return this; }
    data(k, v) { if (v === undefined) return this.length ? this.list[0].dataset[k] : undefined; return this.each((i, e) => { e.dataset[k] = v; }); }
    listen(types, sel, f) {
      if (typeof types === 'object') { for (const t in types) this.listen(t, sel, types[t]); return this; }
      if (typeof sel === 'function') { f = sel; sel = null; }
      for (const t of types.split(/\s+/)) this.each((i, e) => e.addEventListener(t.replace(/\..*/, ''), function (ev) {
        if (!sel) return f.call(this, ev);
        for (let n = ev.target; n && n !== this; n = n.parentNode) if (n instanceof Element && n.matches(sel)) return f.call(n, ev);
      }));
      return this;
    }
    on(types, sel, f) { return this.listen(types, sel, f); }
    bind(t, f) { return this.listen(t, f); } one(t, f) { return this.each((i, e) => e.addEventListener(t, f, { once: true })); }
    live(t, f) { throw new Unsupported('live'); } delegate(s, t, f) { return this.listen(t, s, f); }
    off() { throw new Unsupported('off'); } unbind() { throw new Unsupported('unbind'); }
    trigger(t) { return this.each((i, e) => { if (t === 'click') clickOn(e); else e.dispatchEvent(new Evt(typeof t === 'string' ? t : t.type, { bubbles: true })); }); }
    ready(f) { win.ready(f); return this; }
    load(f) { if (typeof f !== 'function') throw new Unsupported('load'); return this.listen('load', f); }
    serialize() { return new URLSearchParams(entries(this.list[0], null)).toString(); }
    serializeArray() { return entries(this.list[0], null).map(([name, value]) => ({ name, value })); }
  }
  for (const t of ['change', 'click', 'input', 'keyup', 'keydown', 'keypress', 'submit', 'blur', 'paste', 'select']) {
    JQ.prototype[t] = function (f) { return f ? this.listen(t, f) : this.trigger(t); };
  }
  function $(x, ctx) {
    if (typeof x === 'function') { win.ready(x); return new JQ([doc]); }
    if (x === undefined || x === null || x === '') return new JQ([]);
    if (x instanceof JQ) return x;
    if (x instanceof Node || x === win || x === win.sandbox) return new JQ([x]);
    if (Array.isArray(x)) return new JQ(x);
    if (typeof x === 'string' && /^\s*</.test(x)) {
      const l = new JQ(build(x.trim()));
      if (ctx && typeof ctx === 'object' && !(ctx instanceof Node)) for (const k in ctx) { if (typeof l[k] === 'function') l[k](ctx[k]); else l.attr(k, ctx[k]); }
      return l;
    }
    if (typeof x !== 'string') throw new Unsupported('$ of ' + typeof x);
    return ctx ? $(ctx).find(x) : new JQ(doc.querySelectorAll(x));
  }
  Object.assign($, {
    fn: JQ.prototype,
    each(o, f) {
      if (o instanceof JQ) return o.each(f);
      if (o === null || o === undefined) return o;
      if (Array.isArray(o) || typeof o.length === 'number') { for (let i = 0; i < o.length; i++) if (f.call(o[i], i, o[i]) === false) break; } else for (const k in o) if (f.call(o[k], k, o[k]) === false) break;
      return o;
    },
    map(o, f) { const r = []; $.each(o, (k, v) => { const x = f(v, k); if (x !== null && x !== undefined) r.push(...[x].flat()); }); return r; },
    grep(l, f) { return [...l].filter((v, i) => f(v, i)); },
    extend(...xs) { if (xs[0] === true) throw new Unsupported('deep extend'); return Object.assign(...xs); },
    trim(s) { return String(s).trim(); }, isArray: Array.isArray, isFunction: (f) => typeof f === 'function', noop() {}, parseJSON: JSON.parse,
    inArray(x, l) { return l.indexOf(x); }, isEmptyObject(o) { return Object.keys(o).length === 0; }, param(o) { return new URLSearchParams(o).toString(); }, type: (x) => (Array.isArray(x) ? 'array' : x === null ? 'null' : typeof x),
    proxy(f, o) { return f.bind(o); }, ajaxSetup() { throw new Unsupported('ajaxSetup'); },
    ajax(url, o) {
      if (typeof url === 'object') { o = url; url = o.url; }
      o = o || {};
      const type = (o.type || o.method || 'GET').toUpperCase();
      let body = o.data, ct = o.contentType === undefined ? 'application/x-www-form-urlencoded; charset=UTF-8' : o.contentType;
      if (body !== null && body !== undefined && typeof body !== 'string') body = new URLSearchParams(body).toString();
      if (type === 'GET') { if (body) url += (url.includes('?') ? '&' : '?') + body; body = undefined; }
      const cbs = { done: [], fail: [], always: [] };
      let state = 'pending', args = null;
      const jq = { readyState: 1, status: 0, responseText: '', abort() { if (state === 'pending') { state = 'aborted'; win.cancel(id); finish(false, [jq, 'abort', 'abort']); } return jq; },
        done(f) { if (state === 'ok') f(...args); else cbs.done.push(f); return jq; }, fail(f) { if (state === 'bad') f(...args); else cbs.fail.push(f); return jq; },
        always(f) { if (state === 'ok' || state === 'bad') f(...args); else cbs.always.push(f); return jq; },
        then(f, g) { if (f) jq.done(f); if (g) jq.fail(g); return jq; }, getResponseHeader: (k) => (/content-type/i.test(k) ? jq.ctype : null) };
      jq.success = jq.done; jq.error = jq.fail; jq.complete = jq.always;
      const finish = (ok, a) => {
        state = ok ? 'ok' : 'bad'; args = a;
        if (ok && o.success) o.success.apply(o.context || o, a);
        if (!ok && o.error) o.error.apply(o.context || o, a);
        for (const f of ok ? cbs.done : cbs.fail) f(...a);
        for (const f of cbs.always) f(...a);
        if (o.complete) o.complete.call(o.context || o, jq, ok ? 'success' : 'error');
      };
      if (o.beforeSend && o.beforeSend(jq, o) === false) return jq;
      const id = win.request(type, url, ct, body, (res) => {
        if (state !== 'pending') return;
        jq.readyState = 4; jq.status = res.status; jq.responseText = res.body; jq.ctype = res.ctype;
        if (res.status < 200 || res.status > 299) return finish(false, [jq, 'error', '']);
        let data = res.body;
        if (o.dataType === 'json' || (!o.dataType && /json/.test(res.ctype))) {
          try { data = win.json(res.body); } catch (e) { return finish(false, [jq, 'parsererror', e]); }
          jq.responseJSON = data;
        }
        finish(true, [data, 'success', jq]);
      });
      return strict(jq);
    },
    post(url, data, f, type) { if (typeof data === 'function') { type = f; f = data; data = undefined; } return typeof url === 'object' ? $.ajax({ type: 'POST', ...url }) : $.ajax({ type: 'POST', url, data, success: f, dataType: type }); },
    get(url, data, f, type) { if (typeof data === 'function') { type = f; f = data; data = undefined; } return $.ajax({ type: 'GET', url, data, success: f, dataType: type }); },
    getJSON(url, data, f) { return $.get(url, data, f, 'json'); },
    when() { throw new Unsupported('when'); },
  });
  return new Proxy($, { get(t, k, r) { if (k in t || typeof k === 'symbol') return Reflect.get(t, k, r); throw new Unsupported('$.' + String(k)); } });
}

// ------------------------------------------------------------------ forms
function entries(form, button) {
  const r = [];
  for (const e of form.querySelectorAll('input, textarea, select, button')) {
    if (!e.name || e.disabled) continue;
    if ((e.type === 'submit' || e.type === 'image') && (e.localName === 'input' || e.localName === 'button')) { if (e === button) r.push([e.name, e.value]); continue; }
    if (e.type === 'button' || e.type === 'reset') continue;
    if ((e.type === 'radio' || e.type === 'checkbox') && !e.checked) continue;
    r.push([e.name, e.value.replace(/\r\n?|\n/g, '\r\n')]);
  }
  return r;
}
function clickOn(e) {
  const w = e.ownerDocument.defaultView;
  const radio = e.localName === 'input' && (e.type === 'radio' || e.type === 'checkbox');
  const was = radio ? e.checked : false;
  if (radio) e.checked = e.type === 'radio' ? true : !was;
  const ok = e.dispatchEvent(new Evt('click', { bubbles: true }));
  if (!ok) return;
  if (radio && e.checked !== was) { e.dispatchEvent(new Evt('input', { bubbles: true })); e.dispatchEvent(new Evt('change', { bubbles: true })); }
  if (e.type === 'submit' && e.form) { if (e.form.dispatchEvent(new Evt('submit', { bubbles: true }))) w.submitted(e.form, e); }
}

// ------------------------------------------------------------------ the window
class Win {
  constructor(url) {
    this.url = url; this.listeners = {}; this.requests = new Map(); this.fresh = []; this.nextId = 1; this.timers = []; this.now = 0; this.errors = []; this.forms = [];
    this.document = new Document(this); this.readyQ = []; this.jq = 3;
    const w = this;
    this.$ = makeJQuery(this);
    const sb = { document: this.document, jQuery: this.$, $: this.$, console: { log() {}, error() {}, warn() {}, info() {}, debug() {} },
      setTimeout: (f, ms, ...a) => w.timer(f, ms, a, false), clearTimeout: (id) => w.untimer(id), setInterval: (f, ms, ...a) => w.timer(f, ms, a, true), clearInterval: (id) => w.untimer(id),
      requestAnimationFrame: (f) => w.timer(() => f(w.now), 16, [], false), cancelAnimationFrame: (id) => w.untimer(id), queueMicrotask,
      addEventListener: (t, f, o) => Node.prototype.addEventListener.call(w, t, f, o), removeEventListener: (t, f) => Node.prototype.removeEventListener.call(w, t, f),
      alert(x) { w.alerted = true; }, confirm() { return true; }, prompt() { return null; }, Event: Evt, InputEvent: Evt, CustomEvent: Evt, Node, Element, HTMLElement: Element, Text,
      location: { href: url, search: new URL(url).search, pathname: new URL(url).pathname, origin: new URL(url).origin, host: new URL(url).host, hash: '', protocol: 'http:' },
      navigator: { userAgent: 'checks', language: 'ja' }, URL, URLSearchParams, TextEncoder, TextDecoder, AbortController,
      performance: { now: () => w.now }, crypto: globalThis.crypto,
      localStorage: store(), sessionStorage: store(), history: { replaceState() {}, pushState() {} },
      FormData: class { constructor(f) { this.l = f ? entries(f, null) : []; } get(k) { const e = this.l.find((x) => x[0] === k); return e ? e[1] : null; } set(k, v) { this.l = this.l.filter((x) => x[0] !== k); this.append(k, v); } append(k, v) { this.l.push([k, String(v)]); } entries() { return this.l[Symbol.iterator](); } [Symbol.iterator]() { return this.l[Symbol.iterator](); } },
      DOMParser: class { constructor() { throw new Unsupported('DOMParser'); } },
      fetch: (u, o) => w.fetch(u, o), XMLHttpRequest: xhr(this) };
    sb.window = sb; sb.self = sb; sb.globalThis = sb; sb.top = sb; sb.parent = sb;
    this.sandbox = vm.createContext(sb);
    this.json = (s) => vm.runInContext('JSON.parse', this.sandbox)(s);
  }
  fail(e) {
    if (e instanceof Unsupported) this.unsupported = this.unsupported || e.message;
    else this.errors.push(String((e && e.stack) || e).slice(0, 600));
  }
  guard(f) { try { return f(); } catch (e) { this.fail(e); } }
  script(e) {
    if (e.attrs.src !== undefined) {
      const v = /jquery[^0-9]*([0-9]+)\.([0-9]+)/i.exec(e.attrs.src);
      if (v) this.jq = Number(v[1]) + Number(v[2]) / 100;
      if (!/jquery/i.test(e.attrs.src) && !/wasm_exec|pace/.test(e.attrs.src)) this.unsupported = this.unsupported || 'script ' + e.attrs.src;
      return;
    }
    if (e.attrs.type && !/javascript/i.test(e.attrs.type)) { if (e.attrs.type === 'module') this.unsupported = 'module'; return; }
    this.guard(() => vm.runInContext(e.textContent, this.sandbox, { filename: 'page', timeout: 20000 }));
  }
  ready(f) { if (this.document.readyState === 'loading') this.readyQ.push(f); else f.call(this.document, this.$); }
  load(html) {
    parseInto(this.document, html, true);
    this.document.readyState = 'complete';
    for (const f of this.readyQ) this.guard(() => f.call(this.document, this.$));
    for (const t of ['DOMContentLoaded', 'load']) {
      const e = new Evt(t, { bubbles: t !== 'load' });
      this.guard(() => (t === 'load' ? Node.prototype.dispatchEvent.call(Object.assign(this, { ownerDocument: this.document, parentNode: null }), e) : this.document.dispatchEvent(e)));
    }
    if (typeof this.sandbox.onload === 'function') this.guard(() => this.sandbox.onload(new Evt('load')));
    const b = this.document.body;
    if (b && typeof b.onload === 'function') this.guard(() => b.onload(new Evt('load')));
  }
  request(method, url, ctype, body, done) {
    const id = this.nextId++;
    this.requests.set(id, done);
    this.fresh.push({ id, method, url: new URL(url, this.url).href, ctype: ctype || '', body: body === undefined || body === null ? '' : String(body) });
    return id;
  }
  cancel(id) { this.requests.delete(id); this.fresh = this.fresh.filter((r) => r.id !== id); }
  answer(id, res) { const f = this.requests.get(id); this.requests.delete(id); if (f) this.guard(() => f(res)); }
  fetch(u, o) {
    o = o || {};
    if (typeof u !== 'string' && !(u instanceof URL)) throw new Unsupported('fetch of a Request');
    const P = vm.runInContext('Promise', this.sandbox), w = this;
    return new P((ok, bad) => {
      let body = o.body, ct = '';
      if (body instanceof URLSearchParams) ct = 'application/x-www-form-urlencoded;charset=UTF-8';
      else if (body !== undefined && body !== null && typeof body !== 'string') { w.fail(new Unsupported('fetch body')); return; } else if (body) ct = 'text/plain;charset=UTF-8';
      const h = o.headers || {};
      for (const [k, v] of Array.isArray(h) ? h : Object.entries(h)) if (/^content-type$/i.test(k)) ct = v;
      const id = w.request((o.method || 'GET').toUpperCase(), String(u), ct, body, (res) => ok({ ok: res.status >= 200 && res.status < 300, status: res.status, statusText: '', headers: { get: (k) => (/^content-type$/i.test(k) ? res.ctype : null) },
        text: () => P.resolve(res.body), json: () => new P((a, b) => { try { a(w.json(res.body)); } catch (e) { b(e); } }), clone() { return this; } }));
      if (o.signal) {
        const abort = () => { w.cancel(id); bad(Object.assign(new Error('aborted'), { name: 'AbortError' })); };
        if (o.signal.aborted) abort(); else o.signal.addEventListener('abort', abort);
      }
    });
  }
  timer(f, ms, a, every) { const id = this.nextId++; this.timers.push({ id, f, a, at: this.now + Math.max(0, Number(ms) || 0), every: every ? Math.max(1, Number(ms) || 0) : 0 }); return id; }
  untimer(id) { this.timers = this.timers.filter((t) => t.id !== id); }
  // settle lets a few seconds pass
  async settle() {
    await new Promise((r) => setImmediate(r));
    const until = this.now + 5000;
    for (let n = 0; n < 2000; n++) {
      const t = this.timers.filter((x) => x.at <= until).sort((x, y) => x.at - y.at || x.id - y.id)[0];
      if (!t) break;
      this.now = t.at;
      if (t.every) t.at += t.every; else this.untimer(t.id);
      this.guard(() => (typeof t.f === 'function' ? t.f(...t.a) : vm.runInContext(String(t.f), this.sandbox)));
      await new Promise((r) => setImmediate(r));
    }
    this.now = until;
    await new Promise((r) => setImmediate(r));
  }
  submitted(form, button) { this.forms.push({ method: form.method, url: new URL(form.action, this.url).href, fields: entries(form, button) }); }
  report() {
    const d = this.document, box = d.getElementById('inp') || d.querySelector('textarea'), tb = d.getElementById('morphs') || d.querySelector('tbody');
    const radios = d.querySelectorAll('input').filter((e) => e.type === 'radio');
    const rows = [], odd = [];
    if (tb) for (const tr of tb.childNodes) {
      if (tr instanceof Text) { if (tr.data.trim()) odd.push(tr.data); continue; }
      if (tr.localName !== 'tr') { odd.push(serialize(tr)); continue; }
      const row = [];
      for (const td of tr.childNodes) {
        if (td instanceof Text) { if (td.data.trim()) odd.push(td.data); continue; }
        if (td.localName !== 'td' || Object.keys(td.attrs).some((k) => /^on/.test(k))) odd.push(serialize(td));
        for (const x of td.walk()) if (x instanceof Element) odd.push(serialize(x));
        row.push(td.textContent);
      }
      rows.push(row);
    }
    const fresh = this.fresh; this.fresh = [];
    const forms = this.forms; this.forms = [];
    return { box: box ? box.value : null, table: !!tb, modes: radios.map((r) => r.value), mode: (radios.find((r) => r.checked) || { value: null }).value, checked: radios.filter((r) => r.checked).length,
      rows, odd: odd.slice(0, 3).map((s) => s.slice(0, 300)), requests: fresh, forms, errors: this.errors.slice(0, 3), unsupported: this.unsupported || '', alerted: !!this.alerted,
      elements: [...d.walk()].filter((n) => n instanceof Element).length - (tb ? [...tb.walk()].filter((n) => n instanceof Element).length : 0) };
  }
}
function store() { const m = new Map(); return { getItem: (k) => (m.has(k) ? m.get(k) : null), setItem: (k, v) => { m.set(k, String(v)); }, removeItem: (k) => { m.delete(k); }, clear: () => m.clear() }; }
function xhr(w) {
  return class XMLHttpRequest {
    constructor() { this.readyState = 0; this.status = 0; this.responseText = ''; this.response = ''; this.responseType = ''; this.h = {}; this.ls = {}; }
    open(m, u, sync) { if (sync === false) throw new Unsupported('synchronous request'); this.m = m.toUpperCase(); this.u = u; this.readyState = 1; }
    setRequestHeader(k, v) { this.h[k.toLowerCase()] = v; }
    addEventListener(t, f) { (this.ls[t] = this.ls[t] || []).push(f); }
    fire(t) { const e = new Evt(t); e.target = this; if (typeof this['on' + t] === 'function') this['on' + t](e); for (const f of this.ls[t] || []) f.call(this, e); }
    getResponseHeader(k) { return /^content-type$/i.test(k) ? this.ctype : null; }
    abort() { if (this.id) w.cancel(this.id); this.id = 0; this.fire('abort'); }
    send(body) {
      this.id = w.request(this.m, this.u, this.h['content-type'] || (body ? 'text/plain;charset=UTF-8' : ''), body, (res) => {
        this.status = res.status; this.readyState = 4; this.responseText = res.body; this.ctype = res.ctype;
        this.response = this.responseType === 'json' ? (() => { try { return w.json(res.body); } catch (e) { return null; } })() : res.body;
        this.fire('readystatechange'); this.fire('load'); this.fire('loadend');
      });
    }
  };
}

// ------------------------------------------------------------------ the driver
let win = null;
async function step(op) {
  switch (op.op) {
    case 'load':
      win = new Win(op.url);
      if (op.wasm) { // the page finds the program already loaded
        win.sandbox.kagome_tokenize = globalThis.kagome_tokenize;
        win.sandbox.Go = class { constructor() { this.importObject = {}; } run() { return Promise.resolve(); } };
        win.sandbox.WebAssembly = { instantiateStreaming: () => Promise.resolve({ instance: {} }), instantiate: () => Promise.resolve({ instance: {} }) };
        win.sandbox.fetch = () => Promise.resolve({ arrayBuffer: () => Promise.resolve(new ArrayBuffer(0)) });
      }
      win.load(op.html);
      break;
    case 'call': { const r = globalThis.kagome_tokenize(op.text); return { called: JSON.stringify(r === undefined ? null : r) }; }
    case 'type': {
      const box = win.document.getElementById('inp') || win.document.querySelector('textarea');
      box.value = box.hasAttribute('maxlength') ? op.text.slice(0, Number(box.getAttribute('maxlength'))) : op.text;
      win.guard(() => box.dispatchEvent(new Evt('keydown', { bubbles: true })));
      win.guard(() => box.dispatchEvent(new Evt('input', { bubbles: true })));
      win.guard(() => box.dispatchEvent(new Evt('keyup', { bubbles: true })));
      if (op.leave) win.guard(() => box.dispatchEvent(new Evt('change', { bubbles: true })));
      break;
    }
    case 'mode': {
      const r = win.document.querySelectorAll('input').find((e) => e.type === 'radio' && e.value === op.text);
      if (r) win.guard(() => clickOn(r));
      break;
    }
    case 'press': {
      const b = win.document.querySelectorAll('input, button').find((e) => e.type === 'submit');
      if (b) win.guard(() => clickOn(b));
      break;
    }
    case 'answer': win.answer(op.id, { status: op.status, ctype: op.ctype, body: op.body }); break;
    case 'settle': break;
    default: throw new Error('unknown operation ' + op.op);
  }
  await new Promise((r) => setImmediate(r));
  if (op.settle) await win.settle();
  return win.report();
}
process.on('unhandledRejection', (e) => { if (win && !(e && e.name === 'AbortError')) win.fail(e); });

async function main() {
  const [glue, program] = process.argv.slice(2);
  if (program) {
    const log = console.error;
    for (const k of ['log', 'error', 'warn']) console[k] = () => {}; // the program greets
    globalThis.require = require; globalThis.fs = { ...fs, writeSync: (fd, b) => b.length, write: (fd, b, o, n, p, cb) => cb(null, n) };
    globalThis.path = require('path');
    vm.runInThisContext(fs.readFileSync(glue, 'utf8'));
    const go = new globalThis.Go();
    const r = await WebAssembly.instantiate(fs.readFileSync(program), go.importObject);
    go.run(r.instance);
    for (let i = 0; i < 200 && !globalThis.kagome_tokenize; i++) await new Promise((f) => setTimeout(f, 50));
    if (!globalThis.kagome_tokenize) { log('no kagome_tokenize'); process.exit(3); }
  }
  for await (const line of readline.createInterface({ input: process.stdin, crlfDelay: Infinity })) {
    let out;
    try { out = await step(JSON.parse(line)); } catch (e) { out = { broken: String((e && e.stack) || e) }; }
    fs.writeSync(1, JSON.stringify(out) + '\n');
  }
}
main();
