'use strict';
// The user input producer page in a simulated browser. One case per line on the standard input:
// {"folder":…, "zone":…, "start": ms, "ops":[…]} → {"log":[…], "states":[…]}
const vm = require('vm'), fs = require('fs'), path = require('path'), readline = require('readline');
const dom = require('./dom.js');

const scripts = {};
function script(file) {
  if (!scripts[file]) scripts[file] = new vm.Script(fs.readFileSync(file, 'utf8'), {filename: file});
  return scripts[file];
}
const templates = {};
function precompiled(folder, name) {
  // what the build makes of a template with nunjucks' precompiler
  const key = folder + name;
  if (!templates[key]) {
    const ctx = vm.createContext({console});
    ctx.window = ctx;
    script(path.join(folder, 'nunjucks.js')).runInContext(ctx);
    const text = fs.readFileSync(path.join(folder, name), 'utf8');
    templates[key] = new vm.Script('(function() {(window.nunjucksPrecompiled = window.nunjucksPrecompiled || {})[' + JSON.stringify(name)
      + '] = (function() {\n' + ctx.nunjucks.compiler.compile(text, [], [], name, {}) + '\n})();})();', {filename: name + '.js'});
  }
  return templates[key];
}

class Browser {
  constructor(c) {
    this.c = c; this.now = c.start; this.log = []; this.store = new Map(); this.sockets = []; this.errors = [];
    this.load();
  }

  guard(f) { try { return f(); } catch (e) { this.errors.push(String(e && e.stack || e).split('\n').slice(0, 2).join(' ')); } }

  load() {
    const self = this;
    this.timers = []; this.order = 0;
    const doc = this.doc = new dom.Document();
    const win = this.win = vm.createContext(new dom.EventTarget());
    doc.defaultView = win;
    const store = this.store;
    const storage = new Proxy({}, {
      get(_, n) {
        if (n === 'clear') return () => store.clear();
        if (n === 'getItem') return k => store.has(k) ? store.get(k) : null;
        if (n === 'setItem') return (k, v) => { store.set(k, String(v)); };
        if (n === 'removeItem') return k => { store.delete(k); };
        if (n === 'length') return store.size;
        return store.has(n) ? store.get(n) : undefined;
      },
      set(_, n, v) { store.set(n, String(v)); return true; },
      deleteProperty(_, n) { store.delete(n); return true; },
      has(_, n) { return store.has(n); }
    });
    const add = (f, d, every, args) => {
      const id = ++self.order;
      self.timers.push({id, at: self.now + Math.max(0, Number(d) || 0), every: every ? Math.max(1, Number(d) || 0) : 0, f, args, order: id});
      return id;
    };
    const del = id => { self.timers = self.timers.filter(t => t.id !== id); };
    class Socket extends dom.EventTarget {
      constructor(url) {
        super();
        this.url = String(url); this.readyState = 0; this.index = self.sockets.length;
        self.sockets.push(this);
        self.log.push({t: self.now, ev: 'open', ws: this.index, data: this.url});
      }
      send(data) {
        if (this.readyState === 0) throw new Error('InvalidStateError');
        if (this.readyState === 1) self.log.push({t: self.now, ev: 'send', ws: this.index, data: String(data)});
      }
      close() {
        if (this.readyState > 1) return;
        this.readyState = 2;
        self.log.push({t: self.now, ev: 'close', ws: this.index});
        add(() => { this.readyState = 3; this.dispatchEvent(new dom.Event('close', {bubbles: false})); }, 0);
      }
    }
    Socket.CONNECTING = Socket.prototype.CONNECTING = 0; Socket.OPEN = Socket.prototype.OPEN = 1;
    Socket.CLOSING = Socket.prototype.CLOSING = 2; Socket.CLOSED = Socket.prototype.CLOSED = 3;
    Object.assign(win, {
      window: win, self: win, top: win, parent: win, document: doc, location: doc.location, navigator: {userAgent: 'page', platform: ''},
      localStorage: storage, Storage: function Storage() {}, WebSocket: Socket, Event: dom.Event, Node: dom.Node,
      DOMParser: class { parseFromString(s) { return dom.parseXML(s); } },
      setTimeout: (f, d, ...a) => add(f, d, false, a), setInterval: (f, d, ...a) => add(f, d, true, a), clearTimeout: del, clearInterval: del,
      requestAnimationFrame: f => add(f, 16, false, []), queueMicrotask: f => add(f, 0, false, []),
      getComputedStyle: e => new Proxy({}, {get: (_, n) => n === 'getPropertyValue' ? p => e.style[p] || (p === 'display' ? 'block' : '') : e.style[n] || (n === 'display' ? 'block' : '')}),
      console: {log() {}, info() {}, warn() {}, error() {}, debug() {}}, alert() {}, confirm() { return true; }, __now: () => Math.floor(self.now),
      XMLHttpRequest: class { open() {} send() { throw new Error('no network'); } }, URL, TextEncoder, TextDecoder
    });
    vm.runInContext('(function(){var R=Date;Date=class Date extends R{constructor(...a){if(a.length)super(...a);else super(__now());}static now(){return __now();}};'
      + 'performance={now:function(){return __now();}};})()', win);
    const folder = this.c.folder;
    dom.parseHTML(doc, fs.readFileSync(path.join(folder, 'index.html'), 'utf8'), doc);
    for (const s of doc.getElementsByTagName('script')) {
      const src = s.getAttribute('src');
      if (/jquery/.test(src)) script(path.join(__dirname, 'jquery.js')).runInContext(win);
      else if (/^template\//.test(src)) precompiled(folder, src.replace(/\.js$/, '.xml')).runInContext(win);
      else if (src) script(path.join(folder, src)).runInContext(win);
    }
    this.wait(0);
  }

  wait(ms) {
    const end = this.now + ms;
    let n = 0;
    for (;;) {
      let next = null;
      for (const t of this.timers) if (t.at <= end && (!next || t.at < next.at || (t.at === next.at && t.order < next.order))) next = t;
      if (!next) break;
      if (++n > 200000) throw new Error('too many timers');
      this.now = Math.max(this.now, next.at);
      if (next.every) { next.at += next.every; next.order = ++this.order; } else this.timers = this.timers.filter(t => t !== next);
      this.guard(() => typeof next.f === 'function' ? next.f(...(next.args || [])) : undefined);
    }
    this.now = end;
  }

  element(id) {
    const e = this.doc.getElementById(id);
    if (!e) throw new Error('no element ' + id);
    return e;
  }

  fire(e, type, init) { const ev = new dom.Event(type, init); this.guard(() => e.dispatchEvent(ev)); return ev; }

  run(op) {
    const [k, ...a] = op;
    if (k === 'set' || k === 'select') {
      const e = this.element(a[0]);
      e.value = a[1];
      this.fire(e, 'input'); this.fire(e, 'change');
    } else if (k === 'click') {
      const e = this.element(a[0]);
      if (this.visible(e)) this.guard(() => e.click()); else this.log.push({t: this.now, ev: 'hidden', data: a[0]});
    } else if (k === 'key') {
      const e = this.element(a[0]);
      const code = {Enter: 13, Escape: 27, ' ': 32}[a[1]] || a[1].toUpperCase().charCodeAt(0);
      const init = {which: code, keyCode: code, key: a[1], charCode: 0, shiftKey: false, ctrlKey: false, altKey: false, metaKey: false};
      if (!this.fire(e, 'keydown', init).defaultPrevented) {
        if (e.localName === 'textarea' && a[1] === 'Enter') e.value += '\n';
        else if (a[1].length === 1) e.value += a[1];
        this.fire(e, 'input');
      }
      this.fire(e, 'keyup', init);
    } else if (k === 'ws') {
      const s = this.sockets[a[0] < 0 ? this.sockets.length + a[0] : a[0]];
      if (a[1] === 'open') { s.readyState = 1; this.guard(() => s.dispatchEvent(new dom.Event('open', {bubbles: false}))); }
      else if (a[1] === 'fail') {
        s.readyState = 3;
        this.guard(() => s.dispatchEvent(new dom.Event('error', {bubbles: false})));
        this.guard(() => s.dispatchEvent(new dom.Event('close', {bubbles: false})));
      } else if (a[1] === 'close') { s.readyState = 3; this.guard(() => s.dispatchEvent(new dom.Event('close', {bubbles: false}))); }
      else this.guard(() => s.dispatchEvent(new dom.Event('message', {bubbles: false, data: a[2]})));
    } else if (k === 'wait') this.wait(a[0]);
    else if (k === 'reload') { for (const s of this.sockets) if (s.readyState < 3) s.readyState = 3; this.load(); }
    else if (k === 'item') {
      const e = this.items()[a[0]];
      if (e) this.guard(() => e.click());
    } else throw new Error('op ' + k);
    this.wait(0);
  }

  items() { return this.doc.getElementById('result-list').getElementsByClassName('result-list-item'); }

  visible(e) { for (; e && e.nodeType === 1; e = e.parentNode) if (e.style.display === 'none') return false; return true; }

  state() {
    const v = id => { const e = this.doc.getElementById(id); return e ? e.value : null; };
    const items = this.items().map(e => {
      const o = {};
      for (const c of ['seqNum-value', 'autGID-value', 'autGCT-value', 'sender-value', 'payload']) { const x = e.getElementsByClassName(c)[0]; if (x) o[c] = x.textContent; }
      return o;
    });
    const pre = this.doc.getElementById('result-view-pre');
    return {
      now: this.now, text: v('subtitle-content-textarea'), control: v('ag-control-request-input'), sequence: v('sequence-selector'),
      sequences: this.doc.getElementById('sequence-selector').options.map(o => o.value),
      onair: this.doc.getElementById('on-air-span').classList.contains('selected'), items, shown: pre.textContent,
      timers: this.timers.length,
      local: this.doc.getElementById('running-clock').textContent, media: this.doc.getElementById('running-clock-media').textContent
    };
  }
}

const rl = readline.createInterface({input: process.stdin, terminal: false});
rl.on('line', line => {
  let out;
  try {
    const c = JSON.parse(line);
    process.env.TZ = c.zone || 'UTC';
    const b = new Browser(c), states = [b.state()];
    for (const op of c.ops) { b.run(op); states.push(b.state()); }
    out = {log: b.log, states, errors: b.errors};
  } catch (e) { out = {failure: String(e && e.stack || e)}; }
  process.stdout.write(JSON.stringify(out) + '\n');
});
