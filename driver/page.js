// Runs the page served by clubs in a small document model and prints what
// it shows after each received state.
//   node page.js JOB.json      JOB: {html, scripts: {src: text}, runs: [[state, ...], ...]}
// Output: one JSON line: {views: [[{id: [text, fill, stroke]}, ...], ...]}
//   or {error, unknown: [...]}: unknown, parts of the browser's interface
//   asked for which are not modelled here.
"use strict";
const fs = require("fs");
const vm = require("vm");

const unknown = new Set();
const quiet = new Set(["then", "toJSON", "constructor", "inspect", "nodeType"]);

function guarded(target, label) {
  return new Proxy(target, {
    get(obj, key) {
      if (typeof key === "symbol" || key in obj || quiet.has(key)) {
        const v = obj[key];
        return typeof v === "function" ? v.bind(obj) : v;
      }
      unknown.add(label + "." + String(key));
      return undefined;
    },
    set(obj, key, value) {
      if (!(key in obj)) unknown.add(label + "." + String(key) + "=");
      obj[key] = value;
      return true;
    },
  });
}

class List {
  constructor(items, node) {
    this.length = items.length;
    items.forEach((x, i) => (this[i] = x));
    this._items = items;
    // a collection of elements (as opposed to a list of nodes) has no forEach
    if (node) this.forEach = (f, self) => items.forEach((x, i) => f.call(self, x, i, this));
    this.entries = () => items.entries();
    this.keys = () => items.keys();
    this.values = () => items.values();
  }
  item(i) { return this._items[i] || null; }
  namedItem(id) { return this._items.find((x) => x.id === id) || null; }
  [Symbol.iterator]() { return this._items[Symbol.iterator](); }
}

function camel(name) { return name.replace(/-(\w)/g, (_, c) => c.toUpperCase()); }
function dashed(name) { return name.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase()); }

function declarations(el) {
  const out = {};
  for (const part of (el.attrs.style || "").split(";")) {
    const at = part.indexOf(":");
    if (at > 0) out[part.slice(0, at).trim().toLowerCase()] = part.slice(at + 1).replace(/!important/, "").trim();
  }
  return out;
}

function declare(el, all) {
  const text = Object.entries(all).map(([k, v]) => `${k}: ${v};`).join(" ");
  if (text) el.attrs.style = text;
  else delete el.attrs.style;
}

function styleOf(el) {
  const own = {
    setProperty(k, v) {
      const all = declarations(el);
      if (v === "" || v === null) delete all[k];
      else all[k] = String(v);
      declare(el, all);
    },
    removeProperty(k) { const was = own.getPropertyValue(k); own.setProperty(k, ""); return was; },
    getPropertyValue(k) { return declarations(el)[k] || ""; },
  };
  return new Proxy({}, {
    get(_, key) {
      if (typeof key === "symbol") return undefined;
      if (key === "cssText") return el.attrs.style || "";
      if (key in own) return own[key];
      return declarations(el)[dashed(key)] || "";
    },
    set(_, key, value) {
      if (key === "cssText") el.attrs.style = String(value);
      else own.setProperty(dashed(String(key)), value);
      return true;
    },
  });
}

function classesOf(el) {
  const all = () => (el.attrs.class || "").split(/\s+/).filter((x) => x);
  const put = (cs) => (el.attrs.class = [...new Set(cs)].join(" "));
  const own = {
    contains: (c) => all().includes(c),
    add: (...cs) => void put([...all(), ...cs]),
    remove: (...cs) => void put(all().filter((x) => !cs.includes(x))),
    toggle(c, force) {
      const on = force === undefined ? !all().includes(c) : Boolean(force);
      if (on) own.add(c); else own.remove(c);
      return on;
    },
    replace(a, b) {
      if (!all().includes(a)) return false;
      put(all().map((x) => (x === a ? b : x)));
      return true;
    },
    item: (i) => all()[i] || null,
    forEach: (f) => all().forEach(f),
    get length() { return all().length; },
    get value() { return el.attrs.class || ""; },
    set value(v) { el.attrs.class = String(v); },
    toString: () => el.attrs.class || "",
  };
  return guarded(own, "classList");
}

function dataOf(el) {
  return new Proxy({}, {
    get: (_, key) => (typeof key === "symbol" ? undefined : el.attrs["data-" + dashed(key)]),
    set(_, key, value) { el.attrs["data-" + dashed(key)] = String(value); return true; },
    has: (_, key) => "data-" + dashed(String(key)) in el.attrs,
    deleteProperty(_, key) { delete el.attrs["data-" + dashed(String(key))]; return true; },
    ownKeys: () => Object.keys(el.attrs).filter((k) => k.startsWith("data-")).map((k) => camel(k.slice(5))),
    getOwnPropertyDescriptor: (_, key) => ({ value: el.attrs["data-" + dashed(key)], enumerable: true, configurable: true, writable: true }),
  });
}

// elements which a script running now can already find
let horizon = Infinity;
let count = 0;

// what belongs to a proxy
const own = new WeakMap();
function raw(x) { return own.get(x) || x; }

class Any {
  constructor(label) {
    this.parent = null;
    this.order = count++;
    this.proxy = guarded(this, label);
    own.set(this.proxy, this);
  }
  get parentElement() { return this.parent && this.parent.tag[0] !== "#" ? this.parent.proxy : null; }
  get parentNode() { return this.parent && this.parent.proxy; }
  get isConnected() { let el = this; while (el.parent) el = el.parent; return el.tag === "#document"; }
  getRootNode() { let el = this; while (el.parent) el = el.parent; return el.proxy; }
  _near(step, elements) {
    if (!this.parent) return null;
    const all = elements ? this.parent._elements() : this.parent.kids;
    const found = all[all.indexOf(this) + step];
    return found ? found.proxy : null;
  }
  get nextSibling() { return this._near(1, false); }
  get previousSibling() { return this._near(-1, false); }
  remove() {
    if (!this.parent) return;
    this.parent.kids = this.parent.kids.filter((x) => x !== this);
    this.parent = null;
  }
  _beside(xs, step) {
    if (!this.parent) return;
    const up = this.parent;
    const fresh = up._adopt(xs).filter((x) => x !== this);
    const at = up.kids.indexOf(this) + step;
    up.kids.splice(at, 0, ...fresh);
  }
  before(...xs) { this._beside(xs, 0); }
  after(...xs) { this._beside(xs, 1); }
  replaceWith(...xs) {
    if (!this.parent) return;
    this._beside(xs, 0);
    if (!xs.some((x) => raw(x) === this)) this.remove();
  }
}

class Text_ extends Any {
  constructor(text) { super("text"); this.data = text; }
  get tag() { return "#text"; }
  get nodeType() { return 3; }
  get nodeName() { return "#text"; }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = v === null ? "" : String(v); }
  get textContent() { return this.data; }
  set textContent(v) { this.nodeValue = v; }
  get wholeText() { return this.data; }
  get length() { return this.data.length; }
  cloneNode() { return this._copy().proxy; }
  _copy() { return new Text_(this.data); }
}

class Node_ extends Any {
  constructor(tag, attrs) {
    super("element");
    this.tag = tag;
    this.attrs = attrs;
    this.kids = [];
    this.listeners = {};
  }
  // ------------------------------------------------ what scripts may use
  get nodeType() { return this.tag === "#document" ? 9 : this.tag === "#fragment" ? 11 : 1; }
  get tagName() { return this._svg() ? this.tag : this.tag.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get localName() { return this.tag; }
  get nodeValue() { return null; }
  get namespaceURI() { return this._svg() ? "http://www.w3.org/2000/svg" : "http://www.w3.org/1999/xhtml"; }
  get ownerDocument() { return currentDocument; }
  _svg() { for (let el = this; el; el = el.parent) if (el.tag === "svg" || el.svgMade) return true; return false; }
  get id() { return this.attrs.id || ""; }
  set id(v) { this.attrs.id = String(v); }
  get className() {
    const el = this;
    return !this._svg() ? this.attrs.class || "" : {
      get baseVal() { return el.attrs.class || ""; },
      set baseVal(v) { el.attrs.class = String(v); },
      get animVal() { return el.attrs.class || ""; },
    };
  }
  set className(v) { if (!this._svg()) this.attrs.class = String(v); }
  get classList() { return classesOf(this); }
  get style() { return styleOf(this); }
  set style(v) { this.attrs.style = String(v); }
  get dataset() { return dataOf(this); }
  get hidden() { return "hidden" in this.attrs; }
  set hidden(v) { if (v) this.attrs.hidden = ""; else delete this.attrs.hidden; }
  get title() { return this.attrs.title || ""; }
  set title(v) { this.attrs.title = String(v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  getAttributeNS(ns, k) { return this.getAttribute(k); }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  setAttributeNS(ns, k, v) { this.attrs[k] = String(v); }
  hasAttribute(k) { return k in this.attrs; }
  hasAttributeNS(ns, k) { return k in this.attrs; }
  hasAttributes() { return Object.keys(this.attrs).length > 0; }
  removeAttribute(k) { delete this.attrs[k]; }
  removeAttributeNS(ns, k) { delete this.attrs[k]; }
  toggleAttribute(k, force) {
    const on = force === undefined ? !(k in this.attrs) : Boolean(force);
    if (!on) delete this.attrs[k];
    else if (!(k in this.attrs)) this.attrs[k] = "";
    return on;
  }
  getAttributeNames() { return Object.keys(this.attrs); }
  get attributes() {
    const items = Object.entries(this.attrs).map(([name, value]) => ({ name, value, nodeName: name, nodeValue: value }));
    const out = new List(items);
    items.forEach((x) => { if (!(x.name in out)) out[x.name] = x; });
    out.getNamedItem = (k) => items.find((x) => x.name === k) || null;
    return out;
  }
  get textContent() { return this.kids.map((x) => x.textContent).join(""); }
  set textContent(v) { this._fill(v === null || v === undefined ? [] : [String(v)].filter((x) => x)); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get text() { return this.textContent; }
  get innerHTML() { return this.kids.map(written).join(""); }
  set innerHTML(v) { this._fill(parsed(v)); }
  get outerHTML() { return written(this); }
  set outerHTML(v) { this.replaceWith(...parsed(v)); }
  insertAdjacentHTML(where, text) { this._adjacent(where, parsed(text)); }
  insertAdjacentText(where, text) { this._adjacent(where, [String(text)]); }
  insertAdjacentElement(where, el) { this._adjacent(where, [el]); return el; }
  _adjacent(where, xs) {
    const how = where.toLowerCase();
    if (how === "beforebegin") this.before(...xs);
    else if (how === "afterbegin") this.prepend(...xs);
    else if (how === "beforeend") this.append(...xs);
    else this.after(...xs);
  }
  _adopt(xs) {
    const out = [];
    for (const x of xs.map(raw)) {
      if (!(x instanceof Any)) out.push(new Text_(String(x)));
      else if (x.tag === "#fragment") { out.push(...x.kids); x.kids = []; }
      else { x.remove(); out.push(x); }
    }
    out.forEach((x) => (x.parent = this));
    return out;
  }
  _fill(xs) {
    this.kids.forEach((x) => (x.parent = null));
    this.kids = [];
    this.kids = this._adopt(xs);
  }
  replaceChildren(...xs) { this._fill(xs); }
  append(...xs) { this.kids.push(...this._adopt(xs)); }
  prepend(...xs) { this.kids.unshift(...this._adopt(xs)); }
  appendChild(x) { this.append(x); return x; }
  insertBefore(x, ref) {
    if (!ref) return this.appendChild(x);
    const fresh = this._adopt([x]);
    this.kids.splice(this.kids.indexOf(raw(ref)), 0, ...fresh);
    return x;
  }
  removeChild(x) {
    if (raw(x).parent !== this) throw new Error("NotFoundError");
    raw(x).remove();
    return x;
  }
  replaceChild(x, old) { raw(old).replaceWith(x); return old; }
  hasChildNodes() { return this.kids.length > 0; }
  normalize() {}
  cloneNode(deep) {
    const out = this._copy();
    if (!deep) out.kids = [];
    return out.proxy;
  }
  contains(x) { for (let el = raw(x); el; el = el.parent) if (el === this) return true; return false; }
  isEqualNode(x) { return written(this) === written(raw(x)); }
  isSameNode(x) { return raw(x) === this; }
  _elements() { return this.kids.filter((x) => x instanceof Node_); }
  get children() { return new List(this._elements().map((x) => x.proxy)); }
  get childNodes() { return new List(this.kids.map((x) => x.proxy), true); }
  get childElementCount() { return this._elements().length; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const all = this._elements(); return all.length ? all[all.length - 1].proxy : null; }
  get firstChild() { return this.kids.length ? this.kids[0].proxy : null; }
  get lastChild() { return this.kids.length ? this.kids[this.kids.length - 1].proxy : null; }
  get nextElementSibling() { return this._near(1, true); }
  get previousElementSibling() { return this._near(-1, true); }
  closest(sel) {
    for (let el = this; el && el.tag[0] !== "#"; el = el.parent) if (el._matches(sel)) return el.proxy;
    return null;
  }
  addEventListener(name, f) { (this.listeners[name] = this.listeners[name] || []).push(f); }
  removeEventListener(name, f) { this.listeners[name] = (this.listeners[name] || []).filter((x) => x !== f); }
  dispatchEvent(ev) { (this.listeners[ev.type] || []).forEach((f) => f.call(this.proxy, ev)); return true; }
  _all() {
    const out = [];
    const walk = (el) => el.kids.forEach((x) => {
      if (!(x instanceof Node_)) return;
      if (x.order < horizon) out.push(x);
      walk(x);
    });
    walk(this);
    return out;
  }
  getElementById(id) {
    const found = this._all().find((x) => x.attrs.id === String(id));
    return found ? found.proxy : null;
  }
  getElementsByClassName(names) {
    const want = String(names).split(/\s+/).filter((x) => x);
    return new List(this._all().filter((x) => {
      const has = (x.attrs.class || "").split(/\s+/);
      return want.every((c) => has.includes(c));
    }).map((x) => x.proxy));
  }
  getElementsByTagName(tag) {
    return new List(this._all().filter((x) => tag === "*" || x.tag === tag).map((x) => x.proxy));
  }
  getElementsByTagNameNS(ns, tag) { return this.getElementsByTagName(tag); }
  matches(sel) { return this._matches(sel); }
  _matches(sel, scope) {
    return list(sel).some((one) => this._complex(chain(one), scope));
  }
  _complex(parts, scope) {
    const last = parts[parts.length - 1];
    if (!this._simple(last.simple, scope)) return false;
    const rest = parts.slice(0, -1);
    if (!rest.length) return true;
    const up = this.parent && this.parent.tag !== "#fragment" ? this.parent : null;
    if (last.how === ">") return Boolean(up) && up._complex(rest, scope);
    if (last.how === " ") {
      for (let el = up; el; el = el.parent) if (el._complex(rest, scope)) return true;
      return false;
    }
    const all = this.parent ? this.parent._elements() : [];
    const before = all.slice(0, Math.max(0, all.indexOf(this)));
    if (last.how === "+") return before.length > 0 && before[before.length - 1]._complex(rest, scope);
    return before.some((x) => x._complex(rest, scope));
  }
  _simple(sel, scope) {
    if (this.tag === "#document") return sel === ":scope" && scope === this;
    const re = /^(?:[\w]+|\*)|#((?:[\w-]|\\(?:[0-9a-fA-F]{1,6} ?|.))+)|\.((?:[\w-]|\\.)+)|\[\s*([\w:-]+)\s*(?:([\^$*~|]?)=\s*(?:"([^"]*)"|'([^']*)'|([^\]\s]*))\s*[is]?\s*)?\]|:([\w-]+)(?:\(((?:[^()]|\([^()]*\))*)\))?/y;
    let at = 0;
    while (at < sel.length) {
      re.lastIndex = at;
      const m = re.exec(sel);
      if (!m) { unknown.add("selector " + sel); return false; }
      at = re.lastIndex;
      const [all, id, cls, attr, how, v1, v2, v3, pseudo, arg] = m;
      if (id !== undefined) {
        const name = id.replace(/\\(?:([0-9a-fA-F]{1,6}) ?|(.))/g, (_, hex, c) => (hex ? String.fromCodePoint(parseInt(hex, 16)) : c));
        if (this.attrs.id !== name) return false;
      } else if (cls !== undefined) {
        if (!(this.attrs.class || "").split(/\s+/).includes(cls.replace(/\\/g, ""))) return false;
      } else if (attr !== undefined) {
        if (!(attr in this.attrs)) return false;
        const v = this.attrs[attr];
        const value = v1 ?? v2 ?? v3;
        if (value !== undefined) {
          if (how === "" && v !== value) return false;
          if (how === "^" && !(value && v.startsWith(value))) return false;
          if (how === "$" && !(value && v.endsWith(value))) return false;
          if (how === "*" && !(value && v.includes(value))) return false;
          if (how === "~" && !v.split(/\s+/).includes(value)) return false;
          if (how === "|" && !(v === value || v.startsWith(value + "-"))) return false;
        }
      } else if (pseudo !== undefined) {
        if (!this._pseudo(pseudo, arg, sel, scope)) return false;
      } else if (all !== "*" && this.tag !== all) return false;
    }
    return true;
  }
  _pseudo(name, arg, sel, scope) {
    const all = this.parent ? this.parent._elements() : [this];
    const same = all.filter((x) => x.tag === this.tag);
    if (name === "not") return !this._matches(arg, scope);
    if (name === "is" || name === "where") return this._matches(arg, scope);
    if (name === "has") return this._all().some((x) => x._matches(arg));
    if (name === "scope") return this === scope;
    if (name === "root") return this.tag === "html";
    if (name === "empty") return this.kids.length === 0;
    if (name === "first-child") return all[0] === this;
    if (name === "last-child") return all[all.length - 1] === this;
    if (name === "only-child") return all.length === 1;
    if (name === "first-of-type") return same[0] === this;
    if (name === "last-of-type") return same[same.length - 1] === this;
    if (/^nth-(last-)?(child|of-type)$/.test(name)) {
      const among = name.endsWith("child") ? all : same;
      const i = name.includes("last") ? among.length - among.indexOf(this) : among.indexOf(this) + 1;
      const t = arg.trim().replace(/^even$/, "2n").replace(/^odd$/, "2n+1").replace(/\s+/g, "");
      const m = /^(?:([+-]?\d*)n)?([+-]?\d+)?$/.exec(t);
      if (m) {
        const a = m[1] === undefined ? 0 : m[1] === "" || m[1] === "+" ? 1 : m[1] === "-" ? -1 : Number(m[1]);
        const b = Number(m[2] || 0);
        return a === 0 ? i === b : (i - b) / a >= 0 && (i - b) % a === 0;
      }
    }
    unknown.add("selector " + sel);
    return false;
  }
  querySelectorAll(sel) { return new List(this._all().filter((x) => x._matches(sel, this)).map((x) => x.proxy), true); }
  querySelector(sel) {
    const found = this._all().find((x) => x._matches(sel, this));
    return found ? found.proxy : null;
  }
  _copy() {
    const out = new Node_(this.tag, { ...this.attrs });
    out.svgMade = this.svgMade || this._svg();
    out.order = this.order;
    out.kids = this.kids.map((x) => {
      const kid = x._copy();
      kid.parent = out;
      return kid;
    });
    return out;
  }
}

// a selector at its commas; one of these at its combinators
function split(text, at) {
  const out = [];
  let depth = 0;
  let quote = "";
  let begin = 0;
  for (let i = 0; i < text.length; i++) {
    const c = text[i];
    if (c === "\\") { i++; continue; }
    if (quote) { if (c === quote) quote = ""; continue; }
    if (c === '"' || c === "'") quote = c;
    else if (c === "(" || c === "[") depth++;
    else if (c === ")" || c === "]") depth--;
    else if (depth === 0 && at(c)) { out.push([text.slice(begin, i), c]); begin = i + 1; }
  }
  out.push([text.slice(begin), ""]);
  return out;
}
function list(sel) { return split(String(sel), (c) => c === ",").map((x) => x[0].trim()); }
function chain(sel) {
  // an escape by number ends with a space which is no combinator
  const kept = sel.replace(/\\([0-9a-fA-F]{1,6}) /g, (_, hex) => "\\" + hex.padStart(6, "0"));
  const out = [];
  let how = " ";
  for (const [part, c] of split(kept, (x) => " >+~\t\n".includes(x))) {
    if (part) { out.push({ simple: part, how }); how = " "; }
    if (">+~".includes(c) && c) how = c;
  }
  return out;
}

function unescapeText(text) {
  return text.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&nbsp;/g, "\u00a0")
    .replace(/&#(\d+);/g, (_, d) => String.fromCodePoint(Number(d)))
    .replace(/&#[xX]([0-9a-fA-F]+);/g, (_, d) => String.fromCodePoint(parseInt(d, 16)))
    .replace(/&(spades|clubs|hearts|diams);/g, (_, s) => ({ spades: "\u2660", clubs: "\u2663", hearts: "\u2665", diams: "\u2666" })[s])
    .replace(/&apos;/g, "'").replace(/&amp;/g, "&");
}
function escapeText(text) { return text.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;"); }
function written(el) {
  if (el instanceof Text_) return escapeText(el.data);
  const attrs = Object.entries(el.attrs).map(([k, v]) => ` ${k}="${escapeText(v).replace(/"/g, "&quot;")}"`).join("");
  return `<${el.tag}${attrs}>${el.innerHTML}</${el.tag}>`;
}
function parsed(value) { return parse(value === null ? "" : String(value)).kids; }

function parse(html) {
  const root = new Node_("#document", {});
  let at = root;
  const voids = new Set(["link", "meta", "br", "img", "input", "hr", "col", "source"]);
  const re = /<!--[\s\S]*?-->|<\?[\s\S]*?>|<![^>]*>|<(\/?)([\w:-]+)((?:\s+[\w:-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>|[^<]+|</g;
  let m;
  const add = (el) => { el.parent = at; at.kids.push(el); };
  while ((m = re.exec(html))) {
    if (!m[2]) {
      if (m[0][0] !== "<" || m[0] === "<") add(new Text_(unescapeText(m[0])));
      continue;
    }
    if (m[1]) {
      let el = at;
      while (el && el.tag !== m[2]) el = el.parent;
      if (el && el.parent) at = el.parent;
      continue;
    }
    const attrs = {};
    const ar = /([\w:-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
    let a;
    while ((a = ar.exec(m[3]))) attrs[a[1]] = unescapeText(a[2] ?? a[3] ?? a[4] ?? "");
    const el = new Node_(m[2], attrs);
    add(el);
    if (m[2] === "script" || m[2] === "style") {
      const close = `</${m[2]}>`;
      const end = m[4] ? re.lastIndex : html.indexOf(close, re.lastIndex);
      const text = new Text_(html.slice(re.lastIndex, end));
      text.parent = el;
      el.kids.push(text);
      if (!m[4]) re.lastIndex = end + close.length;
    } else if (!m[4] && !voids.has(m[2])) at = el;
  }
  return root;
}

let currentDocument = null;

async function page(tree, scripts) {
  const root = tree._copy();
  const handlers = {};
  const once = new Set();
  const any = [];
  let state = "loading";
  const later = [];
  const loaded = [];
  const timers = [];
  let clock = 0;
  let tick = 0;
  const socket = guarded({
    on(name, f) { (handlers[name] = handlers[name] || []).push(f); return socket; },
    addEventListener(name, f) { return socket.on(name, f); },
    once(name, f) { once.add(f); return socket.on(name, f); },
    off(name, f) { handlers[name] = f ? (handlers[name] || []).filter((x) => x !== f) : []; return socket; },
    removeListener(name, f) { return socket.off(name, f); },
    removeAllListeners(name) { if (name) handlers[name] = []; return socket; },
    onAny(f) { any.push(f); return socket; },
    emit() { return socket; }, send() { return socket; }, connect() { return socket; }, open() { return socket; },
    id: "s", connected: true, disconnected: false,
  }, "socket");
  const kept = {};
  const storage = {
    getItem: (k) => (k in kept ? kept[k] : null), setItem(k, v) { kept[k] = String(v); }, removeItem(k) { delete kept[k]; },
    clear() { Object.keys(kept).forEach((k) => delete kept[k]); },
  };
  const find = (tag) => { const x = root._all().find((y) => y.tag === tag); return x ? x.proxy : null; };
  const on = (name, f) => {
    if (name === "DOMContentLoaded") later.push(f);
    if (name === "load") loaded.push(f);
  };
  const make = (tag, svg) => {
    const el = new Node_(String(tag), {});
    el.svgMade = svg;
    el.order = -1;
    return el.proxy;
  };
  const doc = guarded({
    getElementById: (x) => root.getElementById(x),
    getElementsByClassName: (x) => root.getElementsByClassName(x),
    getElementsByTagName: (x) => root.getElementsByTagName(x),
    querySelector: (x) => root.querySelector(x),
    querySelectorAll: (x) => root.querySelectorAll(x),
    createElement: (tag) => make(tag, false),
    createElementNS: (ns, tag) => make(tag, /svg/.test(ns)),
    createTextNode: (text) => new Text_(String(text)).proxy,
    createDocumentFragment: () => make("#fragment", false),
    importNode: (x, deep) => raw(x).cloneNode(deep),
    adoptNode: (x) => { raw(x).remove(); return x; },
    contains: (x) => root.contains(x),
    get documentElement() { return find("html"); },
    get body() { return find("body"); },
    get head() { return find("head"); },
    get scripts() { return root.getElementsByTagName("script"); },
    get currentScript() { return null; },
    title: "clubs",
    hidden: false,
    visibilityState: "visible",
    nodeType: 9,
    addEventListener: on,
    removeEventListener() {},
    get readyState() { return state; },
  }, "document");
  currentDocument = doc;
  const io = () => socket;
  io.connect = io;
  io.io = io;
  const timer = (f, delay, ...args) => {
    timers.push({ at: clock + (Number(delay) || 0), tick: tick++, f: () => f(...args) });
    return tick;
  };
  const context = {
    document: doc, io,
    console: { log() {}, warn() {}, error() {}, info() {}, debug() {}, table() {}, group() {}, groupEnd() {}, assert() {} },
    addEventListener: on, removeEventListener() {},
    setTimeout: timer,
    clearTimeout: (t) => { const i = timers.findIndex((x) => x.tick === t - 1); if (i >= 0) timers.splice(i, 1); },
    setInterval: () => 0, clearInterval() {},
    requestAnimationFrame: (f) => timer(f, 16), cancelAnimationFrame: (t) => context.clearTimeout(t),
    queueMicrotask: (f) => void Promise.resolve().then(f),
    structuredClone: (x) => JSON.parse(JSON.stringify(x)),
    getComputedStyle: (el) => styleOf(raw(el)),
    performance: { now: () => clock },
    location: { href: "http://127.0.0.1/", protocol: "http:", hostname: "127.0.0.1", host: "127.0.0.1", origin: "http://127.0.0.1", port: "", pathname: "/", search: "", hash: "" },
    navigator: { userAgent: "page.js", language: "en" },
    CSS: { escape: (x) => String(x).replace(/^(\d)/, "\\3$1 ").replace(/([^\w\\ -])/g, "\\$1") },
    URL, URLSearchParams, TextDecoder, TextEncoder,
    Event: class { constructor(type) { this.type = type; } },
    CustomEvent: class { constructor(type, more) { this.type = type; this.detail = more && more.detail; } },
    MutationObserver: class { observe() {} disconnect() {} takeRecords() { return []; } },
    localStorage: storage, sessionStorage: storage,
    dispatchEvent() { return true; }, alert() {}, innerWidth: 1280, innerHeight: 960, devicePixelRatio: 1,
    Node: Any, Element: Node_, HTMLElement: Node_, SVGElement: Node_,
  };
  for (const name of ["onload", "onDOMContentLoaded"]) {
    Object.defineProperty(context, name, { set(f) { loaded.push(f); }, get() { return null; } });
  }
  context.window = context;
  context.self = context;
  vm.createContext(context);
  // all which was put off, in the order of the times it was put off to
  const settle = async () => {
    for (let rounds = 0; rounds < 500; rounds++) {
      await new Promise((done) => setImmediate(done));
      if (!timers.length) return;
      timers.sort((a, b) => a.at - b.at || a.tick - b.tick);
      const next = timers.shift();
      clock = Math.max(clock, next.at);
      next.f();
    }
  };
  const deferred = [];
  const run = (el) => {
    if (el.attrs.src === undefined) vm.runInContext(el.textContent, context);
    else if (el.attrs.src in scripts) vm.runInContext(scripts[el.attrs.src], context);
  };
  for (const el of root._all().filter((x) => x.tag === "script")) {
    if (el.attrs.type === "module" || (el.attrs.src !== undefined && ("defer" in el.attrs || "async" in el.attrs))) {
      deferred.push(el);
      continue;
    }
    // a script finds what is in front of it in the page
    horizon = el.order;
    run(el);
    horizon = Infinity;
  }
  state = "interactive";
  deferred.forEach(run);
  later.forEach((f) => f({ type: "DOMContentLoaded" }));
  state = "complete";
  loaded.forEach((f) => f({ type: "load" }));
  await settle();
  (handlers.connect || []).forEach((f) => f());
  await settle();
  return {
    root,
    async deliver(state) {
      currentDocument = doc;
      const todo = handlers.config || [];
      handlers.config = todo.filter((f) => !once.has(f));
      todo.forEach((f) => f(vm.runInContext("(" + JSON.stringify(state) + ")", context)));
      any.forEach((f) => f("config", vm.runInContext("(" + JSON.stringify(state) + ")", context)));
      await settle();
    },
  };
}

// a colour as it is written most often
function colour(text) {
  const t = text.trim().toLowerCase();
  let m = /^rgba?\(\s*(\d+)[\s,]+(\d+)[\s,]+(\d+)\s*(?:[,/]\s*([\d.%]+)\s*)?\)$/.exec(t);
  if (m) return m[4] !== undefined && parseFloat(m[4]) === 0 ? "transparent"
    : "#" + [1, 2, 3].map((i) => Number(m[i]).toString(16).padStart(2, "0")).join("");
  m = /^#([0-9a-f])([0-9a-f])([0-9a-f])$/.exec(t);
  if (m) return "#" + m[1] + m[1] + m[2] + m[2] + m[3] + m[3];
  m = /^url\(\s*["']?(#[^"')]*)["']?\s*\)$/.exec(text.trim());
  return m ? `url(${m[1]})` : t;
}

function show(root) {
  const out = {};
  for (const el of root._all()) {
    const id = el.attrs.id;
    if (id === undefined || id in out) continue;
    const style = declarations(el);
    let gone = false;
    for (let up = el; up; up = up.parent) {
      const its = up.tag === "#document" ? {} : { ...up.attrs, ...declarations(up) };
      gone = gone || its.display === "none" || its.visibility === "hidden" || (its.hidden !== undefined && !up._svg());
    }
    const flat = el._all().every((x) => x.tag === "tspan" || x.tag === "b" || x.tag === "title");
    out[id] = gone ? ["", "none", ""]
      : [flat ? el.textContent.trim() : "", colour(style.fill || el.attrs.fill || ""), colour(style.stroke || el.attrs.stroke || "")];
  }
  return out;
}

const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
(async () => {
  const views = [];
  try {
    const tree = parse(job.html);
    for (const run of job.runs) {
      const p = await page(tree, job.scripts);
      const shown = [];
      for (const state of run) {
        await p.deliver(state);
        shown.push(show(p.root));
      }
      views.push(shown);
    }
    console.log(JSON.stringify({ views, unknown: [...unknown] }));
  } catch (err) {
    console.log(JSON.stringify({ error: String((err && err.stack) || err), unknown: [...unknown] }));
  }
})();
