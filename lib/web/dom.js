'use strict';
// The part of the DOM that nbdl uses, as the DOM standard says.
class DOMError extends Error { constructor(n, m) { super(m); this.name = n; } }
class Node {
  constructor() { this.parentNode = null; this.childNodes = []; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get previousSibling() { if (!this.parentNode) return null; const c = this.parentNode.childNodes; return c[c.indexOf(this) - 1] || null; }
  hasChildNodes() { return this.childNodes.length > 0; }
  remove() { this._remove(); }
  before(n) { this.parentNode.insertBefore(n, this); }
  after(n) { this.parentNode.insertBefore(n, this.nextSibling); }
  append(...ns) { for (const n of ns) this.appendChild(n); }
  replaceChildren(...ns) { for (const c of this.childNodes.slice()) c._remove(); this.append(...ns); }
  get textContent() { return this instanceof Text ? this.data : this.childNodes.filter(c => !(c instanceof Comment)).map(c => c.textContent).join(''); }
  set textContent(s) { if (this instanceof Text) { this.data = String(s); return; } this.replaceChildren(); if (String(s) !== '') this.appendChild(new Text(s)); }
  get ownerDocument() { return document; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return !!n.isRoot; }
  get nextSibling() { if (!this.parentNode) return null; const c = this.parentNode.childNodes; return c[c.indexOf(this) + 1] || null; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  _check(n) {
    if (!(n instanceof Node)) throw new TypeError('not a Node');
    if (n.contains(this)) throw new DOMError('HierarchyRequestError', 'The new child contains the parent');
    if (!(this instanceof Element || this instanceof Fragment)) throw new DOMError('HierarchyRequestError', 'This node has no children');
  }
  _remove() { if (this.parentNode) { const c = this.parentNode.childNodes; c.splice(c.indexOf(this), 1); this.parentNode = null; } }
  appendChild(n) { return this.insertBefore(n, null); }
  insertBefore(n, ref) {
    this._check(n);
    if (ref !== null && ref.parentNode !== this) throw new DOMError('NotFoundError', 'The reference is no child of this node');
    if (ref === n) ref = n.nextSibling;
    if (n instanceof Fragment) { for (const c of n.childNodes.slice()) this.insertBefore(c, ref); return n; }
    n._remove();
    if (ref === null) this.childNodes.push(n); else this.childNodes.splice(this.childNodes.indexOf(ref), 0, n);
    n.parentNode = this;
    return n;
  }
  removeChild(n) { if (!(n instanceof Node) || n.parentNode !== this) throw new DOMError('NotFoundError', 'no child of this node'); n._remove(); return n; }
  replaceChild(n, old) {
    this._check(n);
    if (!(old instanceof Node) || old.parentNode !== this) throw new DOMError('NotFoundError', 'The node to be replaced is not a child of this node');
    if (n === old) return old;
    if (n instanceof Fragment) { for (const c of n.childNodes.slice()) this.insertBefore(c, old); this.removeChild(old); return old; }
    n._remove();
    const c = this.childNodes;
    c[c.indexOf(old)] = n; n.parentNode = this; old.parentNode = null;
    return old;
  }
}
class Fragment extends Node { }
class Text extends Node { constructor(s) { super(); this.data = String(s); } get nodeValue() { return this.data; } set nodeValue(v) { this.data = v === null || v === undefined ? '' : String(v); } }
class Comment extends Node { constructor(s) { super(); this.data = String(s); } }
class Raw extends Node { constructor(s) { super(); this.html = s; } }
class ClassList {
  constructor(e) { this.e = e; }
  _list() { return (this.e.attrs.get('class') || '').split(/[ \t\n\f\r]+/).filter((x, i, a) => x && a.indexOf(x) === i); }
  _token(t) { t = String(t); if (t === '') throw new DOMError('SyntaxError', 'empty token'); if (/[ \t\n\f\r]/.test(t)) throw new DOMError('InvalidCharacterError', 'blank in a token'); return t; }
  add(t) { t = this._token(t); const l = this._list(); if (!l.includes(t)) l.push(t); this.e.attrs.set('class', l.join(' ')); }
  remove(t) { t = this._token(t); const l = this._list().filter(x => x !== t); if (l.length || this.e.attrs.has('class')) this.e.attrs.set('class', l.join(' ')); }
  toggle(t, f) { if (f === undefined) f = !this.contains(t); if (f) this.add(t); else this.remove(t); return f; }
  contains(t) { return this._list().includes(t); }
}
let listeners = 0;
class Element extends Node {
  constructor(t) { super(); this.tagName = t; this.attrs = new Map(); this.classList = new ClassList(this); this._l = []; this.style = {}; }
  setAttribute(k, v) { if (!/^[^\s\0\/=>]+$/.test(k)) throw new DOMError('InvalidCharacterError', 'not a name'); this.attrs.set(String(k), String(v)); }
  getAttribute(k) { return this.attrs.has(k) ? this.attrs.get(k) : null; }
  hasAttribute(k) { return this.attrs.has(String(k)); }
  toggleAttribute(k, f) { if (f === undefined) f = !this.hasAttribute(k); if (f) { if (!this.hasAttribute(k)) this.setAttribute(k, ''); } else this.removeAttribute(k); return f; }
  get className() { return this.attrs.get('class') || ''; }
  set className(v) { this.attrs.set('class', String(v)); }
  removeAttribute(k) { this.attrs.delete(String(k)); }
  addEventListener(t, f) { if (typeof f !== 'function') throw new TypeError('listener is no function'); if (!this._l.some(x => x[0] === t && x[1] === f)) { this._l.push([t, f]); listeners++; } }
  removeEventListener(t, f) { const i = this._l.findIndex(x => x[0] === t && x[1] === f); if (i >= 0) { this._l.splice(i, 1); listeners--; } }
  set innerHTML(s) { for (const c of this.childNodes) c.parentNode = null; this.childNodes = []; s = String(s); if (s !== '') { const r = new Raw(s); r.parentNode = this; this.childNodes.push(r); } }
  get innerHTML() { return nbdl_children(this); }
  click() {   // not again while its own click is being handled
    if (this.clicking) return;
    this.clicking = true;
    try { dispatch(this, { type: 'click', target: this, preventDefault() { this.defaultPrevented = true; } }); }
    finally { this.clicking = false; }
  }
  dispatchEvent(ev) { ev.target = this; dispatch(this, ev); return !ev.defaultPrevented; }
  get children() { return this.childNodes.filter(c => c instanceof Element); }
  replaceWith(n) { if (this.parentNode) this.parentNode.replaceChild(n, this); }
}
function dispatch(el, ev) {
  const path = []; for (let n = el; n; n = n.parentNode) path.push(n);
  // a listener that is removed on the way is not called any more
  for (const n of path) if (n._l) { ev.currentTarget = n; for (const l of n._l.slice()) if (l[0] === ev.type && n._l.includes(l)) l[1](ev); }
}
const esc = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/"/g, '&quot;');
const props = new Set(['parentNode', 'childNodes', 'tagName', 'attrs', 'classList', '_l', 'style', 'clicking']);
// What a reader of the document can tell: texts side by side are one text,
// empty texts and comments are nothing; classes are a set.
function nbdl_dump(n) {
  if (n instanceof Comment) return '';
  if (n instanceof Text) return n.data === '' ? '' : '"' + esc(n.data) + '"';
  if (n instanceof Raw) return n.html;
  let s = '<' + n.tagName;
  for (const k of [...n.attrs.keys()].sort()) if (k !== 'class' || n.attrs.get(k).trim() !== '') s += ' ' + k + '="' + esc(k === 'class' ? n.classList._list().sort().join(' ') : n.attrs.get(k)) + '"';
  for (const k of Object.keys(n).filter(k => !props.has(k)).sort()) s += ' .' + k + '="' + esc(String(n[k])) + '"';
  return s + '>' + nbdl_children(n) + '</' + n.tagName + '>';
}
function nbdl_children(n) {
  let s = '', text = '';
  const flush = () => { if (text !== '') s += '"' + esc(text) + '"'; text = ''; };
  for (const c of n.childNodes) {
    if (c instanceof Comment) continue;
    if (c instanceof Text) text += c.data;
    else { flush(); s += nbdl_dump(c); }
  }
  flush();
  return s;
}
const document = {
  createComment(s) { return new Comment(s); },
  createDocumentFragment() { return new Fragment(); },
  createElement(t) { if (!/^[A-Za-z][^\s\0\/>]*$/.test(t)) throw new DOMError('InvalidCharacterError', 'not a name'); return new Element(t); },
  createTextNode(s) { return new Text(s); },
};
// A WebSocket whose server is the harness: s_open, s_message and s_close are what
// the network does.
const sockets = [];
class Blob_ { }
class WebSocket {
  constructor(url) {
    if (!/^wss?:\/\//.test(url)) throw new DOMError('SyntaxError', 'not an URL');
    this.url = url; this.readyState = 0; this.binaryType = 'blob'; this.l = []; this.sent = []; this.closes = 0; this.errors = [];
    sockets.push(this);
  }
  addEventListener(t, f) { if (!this.l.some(x => x[0] === t && x[1] === f)) this.l.push([t, f]); }
  removeEventListener(t, f) { this.l = this.l.filter(x => x[0] !== t || x[1] !== f); }
  send(d) {
    if (this.readyState === 0) throw new DOMError('InvalidStateError', 'still connecting');
    if (this.readyState > 1) return;
    if (typeof d === 'string') this.sent.push('text ' + d);
    else if (d && d.is) this.sent.push(d.is);
    else if (d instanceof ArrayBuffer || ArrayBuffer.isView(d)) this.sent.push('bytes ' + Buffer.from(d instanceof ArrayBuffer ? d : d.buffer.slice(d.byteOffset, d.byteOffset + d.byteLength)).toString('hex'));
    else this.sent.push('text ' + String(d));
  }
  close(code) {
    this.closes++;
    if (this.readyState < 2) this.readyState = 2;
  }
  fire(ev) {
    ev.target = this; ev.currentTarget = this;
    const on = this['on' + ev.type];
    for (const f of this.l.filter(x => x[0] === ev.type).map(x => x[1]).concat(on ? [on] : []))
      try { f.call(this, ev); } catch (e) { this.errors.push(String(e && e.message || e)); }
  }
  s_open() { if (this.readyState === 0) { this.readyState = 1; this.fire({ type: 'open' }); } }
  // a message that comes while the socket is closing is not given
  s_message(text, hex) {
    if (this.readyState !== 1) return;
    let data = text;
    if (hex !== undefined) { const b = Buffer.from(hex, 'hex'); data = this.binaryType === 'arraybuffer' ? b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength) : new Blob_(); }
    this.fire({ type: 'message', data });
  }
  s_close(code, error) {
    if (this.readyState === 3) return;
    this.readyState = 3;
    if (error) this.fire({ type: 'error' });
    this.fire({ type: 'close', code });
  }
}
Object.assign(WebSocket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
// The session history: going to another entry fires popstate, pushState does not.
const origin = 'http://nbdl.test';
const hist = {
  entries: [new URL(origin + '/')], at: 0, pushed: 0,
  s_start(url) { this.entries = [new URL(url, origin)]; this.at = 0; this.pushed = 0; },
  s_go(by) { this.at += by; this.s_pop(); },
  // a link to another part of the page, or the address that a user types, as a popstate
  s_visit(url) { this.push(new URL(url, this.entries[this.at])); this.s_pop(); },
  s_pop() { const f = globalThis.onpopstate; if (typeof f === 'function') f.call(globalThis, { type: 'popstate', state: null }); },
  push(u) { this.entries.length = this.at + 1; this.entries.push(u); this.at++; },
  pushState(state, title, url) {
    const u = new URL(url, this.entries[this.at]);
    if (u.origin !== origin) throw new DOMError('SecurityError', 'another origin');
    this.push(u); this.pushed++;
  },
  replaceState(state, title, url) { this.entries[this.at] = new URL(url, this.entries[this.at]); },
  get length() { return this.entries.length; },
};
const location = {
  get pathname() { return hist.entries[hist.at].pathname; }, get href() { return hist.entries[hist.at].href; },
  get search() { return hist.entries[hist.at].search; }, get hash() { return hist.entries[hist.at].hash; },
};
module.exports = { nbdl_decoded: s => s.split('/').map(decodeURIComponent).join('/'), history: hist, location, WebSocket, nbdl_sockets: sockets, document, window: globalThis, Node, Element, Text, nbdl_dump, nbdl_dispatch: (el, t, p) => dispatch(el, Object.assign({ type: t, target: el, preventDefault() { this.defaultPrevented = true; } }, p || {})), nbdl_event: (type, key) => ({ type, key, defaultPrevented: false, preventDefault() { this.defaultPrevented = true; } }),
  nbdl_listeners: () => listeners,
  nbdl_counter: () => { const f = () => { f.times++; }; f.times = 0; return f; },
  // the elements of a tree in document order that have a tag
  nbdl_find: (n, tag) => { const r = []; (function go(n) { if (n.tagName === tag) r.push(n); for (const c of n.childNodes) go(c); })(n); return r; } };
