'use strict';
// A small document object model: as much of a browser page as jQuery and the user input producer need.

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']);
const HTML = 'http://www.w3.org/1999/xhtml';
const ENT = {amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0'};

function decode(s) {
  return s.replace(/&(#x?[0-9a-fA-F]+|[a-zA-Z]+);/g, (m, e) => {
    if (e[0] === '#') return String.fromCodePoint(/^#x/i.test(e) ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
    return e in ENT ? ENT[e] : m;
  });
}
const escText = s => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escAttr = s => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;');

class EventTarget {
  constructor() { this._listeners = []; }
  addEventListener(type, fn, opt) {
    const capture = !!(opt === true || (opt && opt.capture));
    if (!this._listeners.some(l => l.type === type && l.fn === fn && l.capture === capture)) this._listeners.push({type, fn, capture, once: !!(opt && opt.once)});
  }
  removeEventListener(type, fn) { this._listeners = this._listeners.filter(l => !(l.type === type && l.fn === fn)); }
  dispatchEvent(ev) {
    ev.target = this;
    ev.srcElement = this;
    const path = [];
    for (let n = this; n; n = n.parentNode) path.push(n);
    if (this.ownerDocument || this.nodeType === 9) path.push((this.ownerDocument || this).defaultView);
    const deliver = (t, capture) => {
      for (const l of (t._listeners || []).slice()) {
        if (l.type !== ev.type || l.capture !== capture) continue;
        ev.currentTarget = t;
        if (l.once) t.removeEventListener(l.type, l.fn);
        if (typeof l.fn === 'function') l.fn.call(t, ev); else l.fn.handleEvent(ev);
        if (ev._immediate) return;
      }
      const on = t['on' + ev.type];
      if (!capture && typeof on === 'function') { ev.currentTarget = t; if (on.call(t, ev) === false) ev.preventDefault(); }
    };
    for (const t of path.slice(1).reverse()) { if (!ev._stopped) deliver(t, true); }
    if (!ev._stopped) deliver(this, true);
    if (!ev._stopped) deliver(this, false);
    if (ev.bubbles) for (const t of path.slice(1)) { if (ev._stopped) break; deliver(t, false); }
    return !ev.defaultPrevented;
  }
}

class Event {
  constructor(type, init) {
    this.type = type; this.bubbles = true; this.cancelable = true; this.defaultPrevented = false;
    this._stopped = false; this._immediate = false; this.timeStamp = 0; this.eventPhase = 2;
    Object.assign(this, init || {});
  }
  preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
  stopPropagation() { this._stopped = true; }
  stopImmediatePropagation() { this._stopped = this._immediate = true; }
}

class Node extends EventTarget {
  constructor(doc, type, name) {
    super();
    this.ownerDocument = doc; this.nodeType = type; this.nodeName = name; this.childNodes = []; this.parentNode = null;
    this.nodeValue = null;
  }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  _at(d) { if (!this.parentNode) return null; const c = this.parentNode.childNodes; return c[c.indexOf(this) + d] || null; }
  get nextSibling() { return this._at(1); }
  get previousSibling() { return this.parentNode && this.parentNode.childNodes.indexOf(this) > 0 ? this._at(-1) : null; }
  get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n.nodeType === 9; }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  hasChildNodes() { return this.childNodes.length > 0; }
  insertBefore(node, ref) {
    if (node.nodeType === 11) {
      for (const c of node.childNodes.slice()) this.insertBefore(c, ref);
      return node;
    }
    for (let n = this; n; n = n.parentNode) if (n === node) throw new Error('HierarchyRequestError');
    if (node.parentNode) node.parentNode.removeChild(node);
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    if (i < 0) throw new Error('NotFoundError');
    this.childNodes.splice(i, 0, node);
    node.parentNode = this;
    return node;
  }
  appendChild(node) { return this.insertBefore(node, null); }
  append(...nodes) { for (const n of nodes) this.appendChild(typeof n === 'string' ? this.ownerDocument.createTextNode(n) : n); }
  removeChild(node) {
    const i = this.childNodes.indexOf(node);
    if (i < 0) throw new Error('NotFoundError');
    this.childNodes.splice(i, 1);
    node.parentNode = null;
    return node;
  }
  replaceChild(node, old) { this.insertBefore(node, old); return this.removeChild(old); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  compareDocumentPosition(other) {
    if (this === other) return 0;
    if (this.getRootNode() !== other.getRootNode()) return 1;
    if (this.contains(other)) return 20;
    if (other.contains(this)) return 10;
    const path = n => { const p = []; for (; n.parentNode; n = n.parentNode) p.unshift(n.parentNode.childNodes.indexOf(n)); return p; };
    const a = path(this), b = path(other);
    for (let i = 0; ; i++) if (a[i] !== b[i]) return a[i] < b[i] ? 4 : 2;
  }
  get textContent() {
    if (this.nodeType === 3 || this.nodeType === 8) return this.nodeValue;
    return this.childNodes.filter(c => c.nodeType !== 8).map(c => c.textContent).join('');
  }
  set textContent(v) {
    if (this.nodeType === 3 || this.nodeType === 8) { this.nodeValue = String(v); return; }
    for (const c of this.childNodes.slice()) this.removeChild(c);
    if (v !== null && v !== '') this.appendChild(this.ownerDocument.createTextNode(String(v)));
  }
  get children() { return this.childNodes.filter(c => c.nodeType === 1); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  _all(f, out = []) {
    for (const c of this.childNodes) { if (c.nodeType === 1) { if (f(c)) out.push(c); c._all(f, out); } }
    return out;
  }
  getElementsByTagName(t) { return this._all(e => t === '*' || e.nodeName.toLowerCase() === t.toLowerCase()); }
  getElementsByTagNameNS(ns, t) { return this._all(e => (ns === '*' || e.namespaceURI === ns) && (t === '*' || e.localName === t)); }
  getElementsByClassName(c) { const want = c.split(/\s+/).filter(Boolean); return this._all(e => { const have = e.className.split(/\s+/); return want.every(w => have.includes(w)); }); }
  querySelectorAll(s) { return this._window().jQuery.find(s, this); }
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
  _window() { return (this.ownerDocument || this).defaultView; }
  normalize() {}
}
Node.prototype.ELEMENT_NODE = 1;

class CharacterData extends Node {
  constructor(doc, type, name, v) { super(doc, type, name); this.nodeValue = String(v); }
  get data() { return this.nodeValue; }
  set data(v) { this.nodeValue = String(v); }
  cloneNode() { return new CharacterData(this.ownerDocument, this.nodeType, this.nodeName, this.nodeValue); }
}

function makeStyle(el) {
  const get = () => { const o = {}; for (const part of (el.getAttribute('style') || '').split(';')) { const i = part.indexOf(':'); if (i > 0) o[part.slice(0, i).trim().toLowerCase()] = part.slice(i + 1).trim(); } return o; };
  const put = o => { const t = Object.keys(o).map(k => k + ': ' + o[k] + ';').join(' '); if (t) el.setAttribute('style', t); else el.removeAttribute('style'); };
  const css = n => n.replace(/[A-Z]/g, c => '-' + c.toLowerCase());
  return new Proxy({}, {
    get(_, n) {
      if (typeof n !== 'string') return undefined;
      if (n === 'cssText') return el.getAttribute('style') || '';
      if (n === 'getPropertyValue') return p => get()[p] || '';
      if (n === 'setProperty') return (p, v) => { const o = get(); if (v === '' || v == null) delete o[p]; else o[p] = String(v); put(o); };
      if (n === 'removeProperty') return p => { const o = get(); delete o[p]; put(o); };
      return get()[css(n)] || '';
    },
    set(_, n, v) {
      if (n === 'cssText') { el.setAttribute('style', v); return true; }
      const o = get(); if (v === '' || v == null) delete o[css(n)]; else o[css(n)] = String(v); put(o);
      return true;
    },
    has() { return true; }
  });
}

class Element extends Node {
  constructor(doc, name, ns) {
    super(doc, 1, ns === HTML ? name.toUpperCase() : name);
    this.namespaceURI = ns;
    this.localName = ns === HTML ? name.toLowerCase() : name.replace(/^.*:/, '');
    this.tagName = this.nodeName;
    this._attrs = new Map();
    this._nsattrs = [];
    this.style = makeStyle(this);
    this._value = null; this._checked = null; this._selected = null; this.indeterminate = false;
  }
  get attributes() {
    const list = [...this._attrs].map(([name, value]) => ({name, value, nodeName: name, nodeValue: value, specified: true}));
    return list;
  }
  getAttribute(n) { n = n.toLowerCase(); return this._attrs.has(n) ? this._attrs.get(n) : null; }
  getAttributeNode(n) { const v = this.getAttribute(n); return v === null ? null : {name: n, value: v, specified: true}; }
  getAttributeNS(ns, n) { const a = this._nsattrs.find(a => a.ns === ns && a.local === n); return a ? a.value : ''; }
  hasAttribute(n) { return this._attrs.has(n.toLowerCase()); }
  hasAttributeNS(ns, n) { return this._nsattrs.some(a => a.ns === ns && a.local === n); }
  setAttribute(n, v) {
    n = n.toLowerCase();
    this._attrs.set(n, String(v));
    if (n === 'selected' && this.localName === 'option' && this._selected === null) this._selected = null;
  }
  removeAttribute(n) { this._attrs.delete(n.toLowerCase()); }
  toggleAttribute(n, f) { const on = f === undefined ? !this.hasAttribute(n) : f; if (on) this.setAttribute(n, ''); else this.removeAttribute(n); return on; }
  get dataset() { const o = {}; for (const [k, v] of this._attrs) if (k.startsWith('data-')) o[k.slice(5)] = v; return o; }
  get className() { return this.getAttribute('class') || ''; }
  set className(v) { this.setAttribute('class', v); }
  get classList() {
    const el = this, get = () => el.className.split(/\s+/).filter(Boolean), put = a => { el.className = a.join(' '); };
    return {contains: c => get().includes(c), add: (...c) => put([...new Set([...get(), ...c])]), remove: (...c) => put(get().filter(x => !c.includes(x))),
      toggle: (c, f) => { const on = f === undefined ? !get().includes(c) : f; put(get().filter(x => x !== c).concat(on ? [c] : [])); return on; }};
  }
  get id() { return this.getAttribute('id') || ''; }
  set id(v) { this.setAttribute('id', v); }
  get name() { return this.getAttribute('name') || ''; }
  set name(v) { this.setAttribute('name', v); }
  get type() {
    if (this.localName === 'select') return this.hasAttribute('multiple') ? 'select-multiple' : 'select-one';
    if (this.localName === 'textarea') return 'textarea';
    if (this.localName === 'input') return (this.getAttribute('type') || 'text').toLowerCase();
    if (this.localName === 'button') return (this.getAttribute('type') || 'submit').toLowerCase();
    return this.getAttribute('type') || '';
  }
  set type(v) { this.setAttribute('type', v); }
  get disabled() { return this.hasAttribute('disabled'); }
  set disabled(v) { this.toggleAttribute('disabled', !!v); }
  get hidden() { return this.hasAttribute('hidden'); }
  set hidden(v) { this.toggleAttribute('hidden', !!v); }
  get title() { return this.getAttribute('title') || ''; }
  set title(v) { this.setAttribute('title', v); }
  get href() { return this.getAttribute('href') || ''; }
  set href(v) { this.setAttribute('href', v); }
  // form elements
  get options() { return this.localName === 'select' ? this.getElementsByTagName('option') : undefined; }
  _chosen() {
    const o = this.options, own = o.filter(x => x._selected === true);
    if (own.length) return own[own.length - 1];
    const marked = o.filter(x => x._selected === null && x.hasAttribute('selected'));
    if (marked.length) return marked[marked.length - 1];
    return this._none ? null : o.find(x => !x.disabled) || null;
  }
  get selectedIndex() { return this.localName === 'select' ? this.options.indexOf(this._chosen()) : undefined; }
  set selectedIndex(i) {
    this._none = i < 0;
    this.options.forEach((o, j) => { o._selected = i === j; });
  }
  get selectedOptions() { const c = this._chosen(); return c ? [c] : []; }
  get length() { return this.localName === 'select' ? this.options.length : undefined; }
  _select() { let n = this.parentNode; while (n && n.localName !== 'select') n = n.parentNode; return n; }
  get selected() { if (this.localName !== 'option') return undefined; const s = this._select(); return s ? s._chosen() === this : this._selected === null ? this.hasAttribute('selected') : this._selected; }
  set selected(v) {
    if (this.localName !== 'option') return;
    const s = this._select();
    if (s && v) { s.options.forEach(o => { o._selected = false; }); s._none = false; }
    this._selected = !!v;
  }
  get defaultSelected() { return this.hasAttribute('selected'); }
  get text() { return this.textContent; }
  set text(v) { this.textContent = v; }
  get value() {
    switch (this.localName) {
      case 'option': return this.hasAttribute('value') ? this.getAttribute('value') : this.textContent.trim();
      case 'select': { const c = this._chosen(); return c ? c.value : ''; }
      case 'textarea': return (this._value === null ? this.textContent : this._value).replace(/\r\n?/g, '\n');
      case 'input':
        if (this.type === 'radio' || this.type === 'checkbox') return this.hasAttribute('value') ? this.getAttribute('value') : 'on';
        return this._value === null ? this.getAttribute('value') || '' : this._value;
      case 'button': return this.getAttribute('value') || '';
      default: return undefined;
    }
  }
  set value(v) {
    v = v === null ? '' : String(v);
    if (this.localName === 'select') { const i = this.options.findIndex(o => o.value === v); this.selectedIndex = i; return; }
    if (this.localName === 'option' || this.localName === 'button' || (this.localName === 'input' && ['radio', 'checkbox'].includes(this.type))) { this.setAttribute('value', v); return; }
    if (this.localName === 'input') v = v.replace(/[\r\n]/g, '');
    if (this.localName === 'input' && this.type === 'number' && !/^-?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?$/i.test(v)) v = '';
    this._value = v;
  }
  get defaultValue() { return this.localName === 'textarea' ? this.textContent : this.getAttribute('value') || ''; }
  set defaultValue(v) { if (this.localName === 'textarea') this.textContent = v; else this.setAttribute('value', v); }
  get checked() { return this.localName !== 'input' ? undefined : this._checked === null ? this.hasAttribute('checked') : this._checked; }
  set checked(v) {
    if (v && this.type === 'radio' && this.name) {
      for (const o of this.getRootNode().getElementsByTagName('input')) if (o !== this && o.type === 'radio' && o.name === this.name) o._checked = false;
    }
    this._checked = !!v;
  }
  get defaultChecked() { return this.hasAttribute('checked'); }
  get content() { return undefined; }
  get offsetWidth() { return 1; }
  get offsetHeight() { return 1; }
  getClientRects() { return [1]; }
  getBoundingClientRect() { return {left: 0, top: 0, width: 1, height: 1, right: 1, bottom: 1}; }
  focus() { this.ownerDocument.activeElement = this; }
  blur() { this.ownerDocument.activeElement = this.ownerDocument.body; }
  matches(s) { return this._window().jQuery.find.matchesSelector(this, s); }
  closest(s) { for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (n.matches(s)) return n; return null; }
  click() {
    if (this.disabled) return;
    if (this.localName === 'input' && this.type === 'radio') this.checked = true;
    if (this.localName === 'input' && this.type === 'checkbox') this.checked = !this.checked;
    this.dispatchEvent(new Event('click'));
  }
  get innerHTML() { return this.childNodes.map(serialize).join(''); }
  set innerHTML(v) {
    for (const c of this.childNodes.slice()) this.removeChild(c);
    parseHTML(this.ownerDocument, String(v), this);
  }
  get outerHTML() { return serialize(this); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  insertAdjacentHTML(where, html) {
    const f = new Node(this.ownerDocument, 11, '#document-fragment');
    parseHTML(this.ownerDocument, html, f);
    if (where === 'beforeend') this.appendChild(f); else if (where === 'afterbegin') this.insertBefore(f, this.firstChild);
    else if (where === 'beforebegin') this.parentNode.insertBefore(f, this); else this.parentNode.insertBefore(f, this.nextSibling);
  }
  cloneNode(deep) {
    const e = new Element(this.ownerDocument, this.namespaceURI === HTML ? this.localName : this.nodeName, this.namespaceURI);
    for (const [k, v] of this._attrs) e._attrs.set(k, v);
    e._nsattrs = this._nsattrs.slice();
    e._value = this._value; e._checked = this._checked; e._selected = this._selected;
    if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true));
    return e;
  }
}

function serialize(n) {
  if (n.nodeType === 3) return n.parentNode && ['script', 'style'].includes(n.parentNode.localName) ? n.nodeValue : escText(n.nodeValue);
  if (n.nodeType === 8) return '<!--' + n.nodeValue + '-->';
  const t = n.localName;
  let s = '<' + t;
  for (const [k, v] of n._attrs) s += ' ' + k + '="' + escAttr(v) + '"';
  s += '>';
  return VOID.has(t) ? s : s + n.childNodes.map(serialize).join('') + '</' + t + '>';
}

function parseHTML(doc, html, root) {
  const re = /<!--([\s\S]*?)-->|<!([^>]*)>|<\/([a-zA-Z][^\s>]*)\s*>|<([a-zA-Z][^\s\/>]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]+))?)*)\s*(\/?)>|([^<]+|<)/g;
  let cur = root, m;
  while ((m = re.exec(html))) {
    if (m[1] !== undefined) cur.appendChild(doc.createComment(m[1]));
    else if (m[2] !== undefined) continue;
    else if (m[3]) {
      const name = m[3].toLowerCase();
      let n = cur;
      while (n !== root && n.localName !== name) n = n.parentNode;
      if (n !== root) cur = n.parentNode;
    } else if (m[4]) {
      const e = doc.createElement(m[4]);
      const ar = /([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g;
      let a;
      while ((a = ar.exec(m[5]))) e.setAttribute(a[1], decode(a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] !== undefined ? a[4] : ''));
      if (e.localName === 'option' && cur.localName === 'option') cur = cur.parentNode;
      cur.appendChild(e);
      if (e.localName === 'script' || e.localName === 'style' || e.localName === 'textarea') {
        const end = html.toLowerCase().indexOf('</' + e.localName, re.lastIndex);
        const text = html.slice(re.lastIndex, end < 0 ? html.length : end);
        if (text) e.appendChild(doc.createTextNode(e.localName === 'textarea' ? decode(text) : text));
        re.lastIndex = end < 0 ? html.length : html.indexOf('>', end) + 1;
      } else if (!VOID.has(e.localName)) cur = e;
    } else cur.appendChild(doc.createTextNode(decode(m[7])));
  }
}

class Document extends Node {
  constructor() {
    super(null, 9, '#document');
    this.readyState = 'complete';
    this.compatMode = 'CSS1Compat';
    this.activeElement = null;
    this.contentType = 'text/html';
    this.hidden = false;
    this.location = {href: 'file:///index.html', protocol: 'file:', host: '', hostname: '', search: '', hash: ''};
    this.implementation = {createHTMLDocument: () => { const d = new Document(); d.defaultView = this.defaultView; parseHTML(d, '<html><head></head><body></body></html>', d); return d; }};
  }
  get documentElement() { return this.childNodes.find(c => c.nodeType === 1) || null; }
  get head() { return this.getElementsByTagName('head')[0] || null; }
  get body() { return this.getElementsByTagName('body')[0] || null; }
  createElement(n) { return new Element(this, n, HTML); }
  createElementNS(ns, n) { return new Element(this, n, ns); }
  createTextNode(t) { return new CharacterData(this, 3, '#text', t); }
  createComment(t) { return new CharacterData(this, 8, '#comment', t); }
  createDocumentFragment() { const f = new Node(this, 11, '#document-fragment'); f.cloneNode = d => { const g = this.createDocumentFragment(); if (d) for (const c of f.childNodes) g.appendChild(c.cloneNode(true)); return g; }; return f; }
  createEvent() { return new Event(''); }
  getElementById(id) { return this._all(e => e.id === id)[0] || null; }
  getElementsByName(n) { return this._all(e => e.getAttribute('name') === n); }
  hasFocus() { return true; }
}

// XML, with namespaces
function parseXML(xml) {
  const doc = new Document();
  const re = /<\?[\s\S]*?\?>|<!--[\s\S]*?-->|<!\[CDATA\[([\s\S]*?)\]\]>|<!DOCTYPE[^>]*>|<\/([^\s>]+)\s*>|<([^\s\/>]+)((?:\s+[^\s=>]+\s*=\s*(?:"[^"]*"|'[^']*'))*)\s*(\/?)>|([^<]+)/g;
  let cur = doc, m, scope = [{xml: 'http://www.w3.org/XML/1998/namespace'}];
  while ((m = re.exec(xml))) {
    if (m[1] !== undefined) cur.appendChild(doc.createTextNode(m[1]));
    else if (m[2]) { cur = cur.parentNode; scope.pop(); }
    else if (m[3]) {
      const ns = Object.assign({}, scope[scope.length - 1]), attrs = [];
      const ar = /([^\s=]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g;
      let a;
      while ((a = ar.exec(m[4]))) {
        const v = decode(a[2] !== undefined ? a[2] : a[3]);
        if (a[1] === 'xmlns') ns[''] = v; else if (a[1].startsWith('xmlns:')) ns[a[1].slice(6)] = v; else attrs.push([a[1], v]);
      }
      const uri = q => q.includes(':') ? ns[q.split(':')[0]] : undefined;
      const e = new Element(doc, m[3], uri(m[3]) || ns[''] || null);
      for (const [k, v] of attrs) { e._attrs.set(k, v); e._nsattrs.push({ns: uri(k) || null, local: k.replace(/^.*:/, ''), value: v}); }
      cur.appendChild(e);
      if (!m[5]) { cur = e; scope.push(ns); }
    } else if (m[6] && cur !== doc) cur.appendChild(doc.createTextNode(decode(m[6])));
  }
  return doc;
}

module.exports = {Document, Element, Node, Event, EventTarget, parseHTML, parseXML};
