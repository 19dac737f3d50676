// A small browser: HTML reader, DOM, selectors, events, focus, display styles from the real style sheet, a crude layout.
// It knows nothing about rsm's scripts.

const VOID = new Set("area base br col embed hr img input link meta param source track wbr".split(" "));
const RAW = new Set(["script", "style"]);
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const NOTDISPLAYED = new Set("head title script style meta link template base".split(" "));
const INLINE = new Set("a span em strong b i u s code kbd sup sub small ins del mark abbr cite q time var label img br button input select textarea svg".split(" "));

export class DOMException extends Error {
  constructor(message, name = "Error") { super(message); this.name = name; }
}
const syntax = msg => new DOMException(msg, "SyntaxError");

function decode(s) {
  return s.indexOf("&") < 0 ? s : s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (all, e) => {
    if (e[0] == "#") return String.fromCodePoint(e[1] == "x" || e[1] == "X" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1)));
    return e in ENT ? ENT[e] : all;
  });
}
const encode = s => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const encodeAttr = s => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/"/g, "&quot;");

// ---- events --------------------------------------------------------------------------------------------------------
export class Event {
  constructor(type, init = {}) {
    Object.assign(this, { bubbles: false, cancelable: false, composed: false }, init);
    this.type = type; this.target = null; this.currentTarget = null; this.eventPhase = 0;
    this.defaultPrevented = false; this._stop = false; this._now = false; this.timeStamp = 0; this.isTrusted = true;
  }
  preventDefault() { if (this.cancelable && !this._passive) this.defaultPrevented = true; }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = this._now = true; }
  composedPath() { return this._path || []; }
  get srcElement() { return this.target; }
  get cancelBubble() { return this._stop; }
  get returnValue() { return !this.defaultPrevented; }
}
Object.assign(Event, { NONE: 0, CAPTURING_PHASE: 1, AT_TARGET: 2, BUBBLING_PHASE: 3 });
export class UIEvent extends Event { }
export class MouseEvent extends UIEvent { getModifierState() { return false; } }
export class PointerEvent extends MouseEvent { }
export class FocusEvent extends UIEvent { }
export class KeyboardEvent extends UIEvent { getModifierState() { return false; } }
export class CustomEvent extends Event { constructor(t, i = {}) { super(t, i); this.detail = i.detail ?? null; } }

export class EventTarget {
  addEventListener(type, fn, opt) {
    if (fn === null || fn === undefined) return;
    const o = typeof opt == "boolean" ? { capture: opt } : (opt || {});
    const ls = (this._ls ??= new Map());
    if (!ls.has(type)) ls.set(type, []);
    const l = ls.get(type);
    if (l.some(x => x.fn === fn && x.capture === !!o.capture)) return;
    const rec = { fn, capture: !!o.capture, once: !!o.once, passive: !!o.passive };
    l.push(rec);
    if (o.signal) o.signal.addEventListener("abort", () => this.removeEventListener(type, fn, opt));
  }
  removeEventListener(type, fn, opt) {
    const cap = typeof opt == "boolean" ? opt : !!(opt && opt.capture);
    const l = this._ls?.get(type);
    if (!l) return;
    const i = l.findIndex(x => x.fn === fn && x.capture === cap);
    if (i >= 0) { l[i].removed = true; l.splice(i, 1); }
  }
  dispatchEvent(ev) {
    const path = [];
    for (let t = this; t; t = t._eventParent ? t._eventParent() : null) path.push(t);
    ev.target = this; ev._path = path;
    const win = this._window ? this._window() : null;
    const call = (t, phase) => {
      if (ev._stop) return;
      ev.currentTarget = t; ev.eventPhase = t === this ? 2 : phase;
      const ls = t._ls?.get(ev.type);
      for (const x of ls ? [...ls] : []) {
        if (x.removed || ev._now) continue;
        if (t !== this && x.capture !== (phase == 1)) continue;
        if (t === this && x.capture !== (phase == 1)) continue;
        if (x.once) t.removeEventListener(ev.type, x.fn, x.capture);
        ev._passive = x.passive;
        try {
          const r = typeof x.fn == "function" ? x.fn.call(t, ev) : x.fn.handleEvent(ev);
          if (r && typeof r.then == "function") r.then(null, e => report(win, e, ev));
        } catch (e) { report(win, e, ev); }
        ev._passive = false;
      }
      if (phase != 1 && !ev._now) {
        const h = t["on" + ev.type];
        if (typeof h == "function") try { if (h.call(t, ev) === false) ev.preventDefault(); } catch (e) { report(win, e, ev); }
      }
    };
    for (const t of [...path].reverse()) call(t, 1);
    call(this, 2);
    if (ev.bubbles) for (const t of path.slice(1)) call(t, 3);
    ev.currentTarget = null; ev.eventPhase = 0;
    return !ev.defaultPrevented;
  }
}
function report(win, e, ev) {
  if (!win) throw e;
  win._errors.push({ where: ev.type, message: String(e && e.message || e), stack: String(e && e.stack || "") });
}

// ---- collections ---------------------------------------------------------------------------------------------------
class List {
  constructor(a) { for (let i = 0; i < a.length; i++) this[i] = a[i]; Object.defineProperty(this, "length", { value: a.length }); }
  item(i) { return this[i] ?? null; }
  [Symbol.iterator]() { return Array.prototype[Symbol.iterator].call(this); }
}
export class NodeList extends List {
  forEach(f, t) { Array.prototype.forEach.call(this, f, t); }
  entries() { return Array.prototype.entries.call(this); }
  keys() { return Array.prototype.keys.call(this); }
  values() { return Array.prototype.values.call(this); }
}
export class HTMLCollection extends List {
  namedItem(n) { for (const e of this) if (e.id === n || e.getAttribute("name") === n) return e; return null; }
}
export class DOMTokenList {
  constructor(el, attr = "class") { this._el = el; this._attr = attr; }
  get _a() { return (this._el.getAttribute(this._attr) || "").split(/[ \t\n\f\r]+/).filter((x, i, a) => x && a.indexOf(x) == i); }
  _set(a) { this._el.setAttribute(this._attr, a.join(" ")); }
  _check(ts) { for (const t of ts) { if (String(t) === "") throw syntax("empty token"); if (/\s/.test(t)) throw new DOMException("space in token", "InvalidCharacterError"); } }
  get length() { return this._a.length; }
  get value() { return this._el.getAttribute(this._attr) || ""; }
  set value(v) { this._el.setAttribute(this._attr, v); }
  item(i) { return this._a[i] ?? null; }
  contains(t) { return this._el._has(String(t), this._attr); }
  add(...ts) { this._check(ts); const a = this._a; for (const t of ts) if (!a.includes(String(t))) a.push(String(t)); this._set(a); }
  remove(...ts) { this._check(ts); ts = ts.map(String); if (this._el.hasAttribute(this._attr)) this._set(this._a.filter(x => !ts.includes(x))); }
  toggle(t, force) {
    this._check([t]);
    const has = this.contains(t);
    if (has && force !== true) { this.remove(t); return false; }
    if (!has && force !== false) { this.add(t); return true; }
    return has;
  }
  replace(a, b) { this._check([a, b]); const l = this._a, i = l.indexOf(String(a)); if (i < 0) return false; l[i] = String(b); this._set(l.filter((x, j) => l.indexOf(x) == j)); return true; }
  supports() { return true; }
  forEach(f, t) { this._a.forEach((x, i) => f.call(t, x, i, this)); }
  entries() { return this._a.entries(); }
  keys() { return this._a.keys(); }
  values() { return this._a.values(); }
  [Symbol.iterator]() { return this._a[Symbol.iterator](); }
  toString() { return this.value; }
}
const indexed = tl => new Proxy(tl, {
  get: (t, k) => typeof k == "string" && /^\d+$/.test(k) ? t._a[k] : typeof t[k] == "function" ? t[k].bind(t) : t[k],
  set: (t, k, v) => { t[k] = v; return true; },
});
const kebab = s => s.replace(/[A-Z]/g, c => "-" + c.toLowerCase());
const camel = s => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
function declarations(text) {
  const out = new Map();
  for (const d of (text || "").split(/;(?![^(]*\))/)) {
    const i = d.indexOf(":");
    if (i < 0) continue;
    let v = d.slice(i + 1).trim(), imp = false;
    if (/!\s*important$/.test(v)) { imp = true; v = v.replace(/\s*!\s*important$/, ""); }
    if (v) out.set(d.slice(0, i).trim().toLowerCase(), { v, imp });
  }
  return out;
}
class Style {
  constructor(el) { this._el = el; }
  get _m() { return declarations(this._el.getAttribute("style")); }
  _put(m) { this._el.setAttribute("style", [...m].map(([k, d]) => `${k}: ${d.v}${d.imp ? " !important" : ""};`).join(" ")); }
  getPropertyValue(k) { return this._m.get(k)?.v ?? ""; }
  getPropertyPriority(k) { return this._m.get(k)?.imp ? "important" : ""; }
  setProperty(k, v, p) { const m = this._m; if (v === null || v === undefined || String(v).trim() === "") m.delete(k); else m.set(k, { v: String(v).trim(), imp: p == "important" }); this._put(m); }
  removeProperty(k) { const m = this._m, o = m.get(k)?.v ?? ""; m.delete(k); this._put(m); return o; }
  get cssText() { return this._el.getAttribute("style") || ""; }
  set cssText(v) { this._el.setAttribute("style", v); }
  get length() { return this._m.size; }
  item(i) { return [...this._m.keys()][i] ?? ""; }
}
const styled = el => new Proxy(new Style(el), {
  get: (t, k) => k in t ? (typeof t[k] == "function" ? t[k].bind(t) : t[k]) : typeof k == "string" ? t.getPropertyValue(k == "cssFloat" ? "float" : kebab(k)) : undefined,
  set: (t, k, v) => { if (k == "cssText") t.cssText = v; else t.setProperty(kebab(String(k)), v); return true; },
  has: () => true,
});

// ---- nodes ---------------------------------------------------------------------------------------------------------
let clock = 0;                                        // counts changes of any tree, for caches
export class Node extends EventTarget {
  constructor(doc) { super(); this.ownerDocument = doc; this.parentNode = null; this._kids = []; }
  _eventParent() { return this.parentNode; }
  _window() { return (this.ownerDocument || this).defaultView; }
  get childNodes() { return new NodeList(this._kids); }
  get firstChild() { return this._kids[0] ?? null; }
  get lastChild() { return this._kids[this._kids.length - 1] ?? null; }
  get _i() { return this.parentNode ? this.parentNode._kids.indexOf(this) : -1; }
  get nextSibling() { return this.parentNode?._kids[this._i + 1] ?? null; }
  get previousSibling() { return this.parentNode?._kids[this._i - 1] ?? null; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get isConnected() { return this.getRootNode() === (this.ownerDocument || this); }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  hasChildNodes() { return this._kids.length > 0; }
  contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    if (this.contains(o)) return 20;
    if (o.contains(this)) return 10;
    const up = n => { const a = []; for (; n; n = n.parentNode) a.unshift(n); return a; }, a = up(this), b = up(o);
    if (a[0] !== b[0]) return 37;
    let i = 0; while (a[i] === b[i]) i++;
    return a[i]._i < b[i]._i ? 4 : 2;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  insertBefore(n, ref) {
    if (n instanceof Node && n.contains(this)) throw new DOMException("cycle", "HierarchyRequestError");
    if (ref && ref.parentNode !== this) throw new DOMException("not a child", "NotFoundError");
    for (const k of n instanceof DocumentFragment ? [...n._kids] : [n]) {
      if (k.parentNode) k.parentNode.removeChild(k);
      const i = ref ? ref._i : this._kids.length;
      this._kids.splice(i, 0, k);
      k.parentNode = this;
      (this.ownerDocument || this)._inserted?.(k);
    }
    clock++;
    return n;
  }
  removeChild(n) {
    if (n.parentNode !== this) throw new DOMException("not a child", "NotFoundError");
    this._kids.splice(n._i, 1); n.parentNode = null; clock++;
    return n;
  }
  replaceChild(n, old) { const r = old.nextSibling; this.removeChild(old); this.insertBefore(n, r === n ? n.nextSibling : r); return old; }
  normalize() { }
  isEqualNode(o) { return this === o || !!o && this.outerHTML === o.outerHTML && this.nodeType === o.nodeType; }
  isSameNode(o) { return this === o; }
  cloneNode(deep = false) {
    const c = this._copy();
    if (deep) for (const k of this._kids) { const d = k.cloneNode(true); d.parentNode = c; c._kids.push(d); }
    return c;
  }
  get textContent() { return this._kids.map(k => k.nodeType == 8 ? "" : k.textContent).join(""); }
  set textContent(v) { this._empty(); if (v !== null && v !== "") this.appendChild(new Text(String(v), this.ownerDocument || this)); }
  _empty() { for (const k of this._kids) k.parentNode = null; this._kids = []; clock++; }
  get nodeValue() { return null; }
  _nodes(args) { return args.map(a => a instanceof Node ? a : new Text(String(a), this.ownerDocument || this)); }
  // ChildNode, ParentNode
  remove() { this.parentNode?.removeChild(this); }
  before(...a) { for (const n of this._nodes(a)) this.parentNode.insertBefore(n, this); }
  after(...a) { const r = this.nextSibling; for (const n of this._nodes(a)) this.parentNode.insertBefore(n, r); }
  replaceWith(...a) { const p = this.parentNode, r = this.nextSibling; this.remove(); for (const n of this._nodes(a)) p.insertBefore(n, r); }
  append(...a) { for (const n of this._nodes(a)) this.appendChild(n); }
  prepend(...a) { const r = this.firstChild; for (const n of this._nodes(a)) this.insertBefore(n, r); }
  replaceChildren(...a) { this._empty(); this.append(...a); }
  get _els() { return this._kids.filter(k => k.nodeType == 1); }
  get children() { return new HTMLCollection(this._els); }
  get childElementCount() { return this._els.length; }
  get firstElementChild() { return this._kids.find(k => k.nodeType == 1) ?? null; }
  get lastElementChild() { return this._kids.findLast(k => k.nodeType == 1) ?? null; }
  get nextElementSibling() { let n = this.nextSibling; while (n && n.nodeType != 1) n = n.nextSibling; return n; }
  get previousElementSibling() { let n = this.previousSibling; while (n && n.nodeType != 1) n = n.previousSibling; return n; }
  *_walk() { for (const k of this._kids) { if (k.nodeType == 1) yield k; yield* k._walk(); } }
  querySelectorAll(s) { return new NodeList(select(s, this)); }
  querySelector(s) { return select(s, this, true)[0] ?? null; }
  getElementsByTagName(t) { t = t.toLowerCase(); return new HTMLCollection([...this._walk()].filter(e => t == "*" || e.localName.toLowerCase() == t)); }
  getElementsByClassName(c) { const cs = c.split(/\s+/).filter(x => x); return new HTMLCollection([...this._walk()].filter(e => cs.length && cs.every(x => e._has(x)))); }
}
Object.assign(Node, { ELEMENT_NODE: 1, ATTRIBUTE_NODE: 2, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11, DOCUMENT_POSITION_DISCONNECTED: 1, DOCUMENT_POSITION_PRECEDING: 2, DOCUMENT_POSITION_FOLLOWING: 4, DOCUMENT_POSITION_CONTAINS: 8, DOCUMENT_POSITION_CONTAINED_BY: 16 });
Object.assign(Node.prototype, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });

export class CharacterData extends Node {
  constructor(data, doc) { super(doc); this.data = data; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); clock++; }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = String(v); clock++; }
  get length() { return this.data.length; }
}
export class Text extends CharacterData {
  get nodeType() { return 3; } get nodeName() { return "#text"; }
  _copy() { return new Text(this.data, this.ownerDocument); }
  get outerHTML() { return this.parentNode && RAW.has(this.parentNode.localName) ? this.data : encode(this.data); }
  get wholeText() { return this.data; }
}
export class Comment extends CharacterData {
  get nodeType() { return 8; } get nodeName() { return "#comment"; }
  _copy() { return new Comment(this.data, this.ownerDocument); }
  get outerHTML() { return `<!--${this.data}-->`; }
}
export class DocumentFragment extends Node {
  get nodeType() { return 11; } get nodeName() { return "#document-fragment"; }
  _copy() { return new DocumentFragment(this.ownerDocument); }
  getElementById(id) { for (const e of this._walk()) if (e.id === id) return e; return null; }
  get outerHTML() { return this._kids.map(k => k.outerHTML).join(""); }
}
class Attr { constructor(name, value, el) { Object.assign(this, { name, value, ownerElement: el, nodeType: 2, specified: true, localName: name, nodeName: name, nodeValue: value }); } }

export class Element extends Node {
  constructor(tag, doc, ns = "http://www.w3.org/1999/xhtml") { super(doc); this.localName = tag; this.namespaceURI = ns; this._at = new Map(); this._cls = null; }
  get nodeType() { return 1; }
  get tagName() { return this.namespaceURI.endsWith("xhtml") ? this.localName.toUpperCase() : this.localName; }
  get nodeName() { return this.tagName; }
  _copy() { const c = new this.constructor(this.localName, this.ownerDocument, this.namespaceURI); c._at = new Map(this._at); return c; }
  // attributes
  _n(k) { k = String(k); return this.namespaceURI.endsWith("xhtml") ? k.toLowerCase() : k; }
  getAttribute(k) { return this._at.get(this._n(k)) ?? null; }
  setAttribute(k, v) { this._at.set(this._n(k), String(v)); if (k == "class") this._cls = null; clock++; }
  removeAttribute(k) { this._at.delete(this._n(k)); this._cls = null; clock++; }
  hasAttribute(k) { return this._at.has(this._n(k)); }
  hasAttributes() { return this._at.size > 0; }
  toggleAttribute(k, f) { const has = this.hasAttribute(k); if (f ?? !has) { if (!has) this.setAttribute(k, ""); return true; } this.removeAttribute(k); return false; }
  getAttributeNames() { return [...this._at.keys()]; }
  getAttributeNS(_, k) { return this.getAttribute(k); }
  setAttributeNS(_, k, v) { this.setAttribute(k, v); }
  getAttributeNode(k) { return this.hasAttribute(k) ? new Attr(this._n(k), this.getAttribute(k), this) : null; }
  get attributes() { return new List([...this._at].map(([k, v]) => new Attr(k, v, this))); }
  _has(c, attr = "class") {
    if (attr != "class") return (this.getAttribute(attr) || "").split(/\s+/).includes(c);
    this._cls ??= new Set((this._at.get("class") || "").split(/[ \t\n\f\r]+/));
    return c !== "" && this._cls.has(c);
  }
  get id() { return this.getAttribute("id") ?? ""; }
  set id(v) { this.setAttribute("id", v); }
  get className() { return this.getAttribute("class") ?? ""; }
  set className(v) { this.setAttribute("class", v); }
  get classList() { return (this._tl ??= indexed(new DOMTokenList(this))); }
  set classList(v) { this.className = v; }
  get style() { return (this._st ??= styled(this)); }
  set style(v) { this.setAttribute("style", v); }
  get dataset() {
    const el = this;
    return new Proxy({}, {
      get: (_, k) => typeof k == "string" ? el.getAttribute("data-" + kebab(k)) ?? undefined : undefined,
      set: (_, k, v) => { el.setAttribute("data-" + kebab(k), v); return true; },
      has: (_, k) => el.hasAttribute("data-" + kebab(k)),
      deleteProperty: (_, k) => { el.removeAttribute("data-" + kebab(k)); return true; },
      ownKeys: () => el.getAttributeNames().filter(a => a.startsWith("data-")).map(a => camel(a.slice(5))),
      getOwnPropertyDescriptor: (_, k) => ({ value: el.getAttribute("data-" + kebab(k)), enumerable: true, configurable: true, writable: true }),
    });
  }
  // selectors
  matches(s) { return compile(s).some(x => matchComplex(x, this, this)); }
  closest(s) { const c = compile(s); for (let e = this; e && e.nodeType == 1; e = e.parentNode) if (c.some(x => matchComplex(x, e, this))) return e; return null; }
  // text
  get innerHTML() { return this._kids.map(k => k.outerHTML).join(""); }
  set innerHTML(v) { this._empty(); parseInto(this, v === null ? "" : String(v), this.ownerDocument); }
  get outerHTML() {
    const a = [...this._at].map(([k, v]) => ` ${k}="${encodeAttr(v)}"`).join("");
    return VOID.has(this.localName) ? `<${this.localName}${a}>` : `<${this.localName}${a}>${this.innerHTML}</${this.localName}>`;
  }
  set outerHTML(v) { const f = new DocumentFragment(this.ownerDocument); parseInto(f, v, this.ownerDocument); this.replaceWith(f); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  insertAdjacentHTML(pos, html) {
    const f = new DocumentFragment(this.ownerDocument); parseInto(f, html, this.ownerDocument);
    this.insertAdjacentElement(pos, f);
  }
  insertAdjacentElement(pos, n) {
    switch (pos.toLowerCase()) {
      case "beforebegin": this.parentNode.insertBefore(n, this); break;
      case "afterbegin": this.insertBefore(n, this.firstChild); break;
      case "beforeend": this.appendChild(n); break;
      case "afterend": this.parentNode.insertBefore(n, this.nextSibling); break;
      default: throw syntax(pos);
    }
    return n;
  }
  insertAdjacentText(pos, s) { this.insertAdjacentElement(pos, new Text(s, this.ownerDocument)); }
  // layout and interaction
  getBoundingClientRect() { return this._window().__rect(this); }
  getClientRects() { return new List([this.getBoundingClientRect()]); }
  get offsetHeight() { return this.getBoundingClientRect().height; }
  get offsetWidth() { return this.getBoundingClientRect().width; }
  get clientHeight() { return this.localName == "html" ? this._window().innerHeight : this.offsetHeight; }
  get clientWidth() { return this.localName == "html" ? this._window().innerWidth : this.offsetWidth; }
  get scrollHeight() { return this.offsetHeight; }
  get scrollWidth() { return this.offsetWidth; }
  get offsetTop() { return this.getBoundingClientRect().top + this._window().scrollY; }
  get offsetLeft() { return 0; }
  get clientTop() { return 0; }
  get clientLeft() { return 0; }
  get offsetParent() { return this._window().__shown(this) ? this.ownerDocument.body : null; }
  get scrollTop() { return this.localName == "html" ? this._window().scrollY : 0; }
  set scrollTop(v) { if (this.localName == "html") this._window().scrollTo(0, v); }
  get scrollLeft() { return 0; }
  set scrollLeft(v) { }
  scrollIntoView() { this._window().scrollTo(0, this.offsetTop); }
  checkVisibility() { return this._window().__shown(this); }
  getAnimations() { return []; }
  animate() { return { finished: Promise.resolve(), cancel() { }, addEventListener() { } }; }
  get tabIndex() { const t = parseInt(this.getAttribute("tabindex")); return isNaN(t) ? (this._native() ? 0 : -1) : t; }
  set tabIndex(v) { this.setAttribute("tabindex", v); }
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  get title() { return this.getAttribute("title") ?? ""; }
  set title(v) { this.setAttribute("title", v); }
  get disabled() { return this.hasAttribute("disabled"); }
  set disabled(v) { this.toggleAttribute("disabled", !!v); }
  get href() { const h = this.getAttribute("href"); return h === null ? "" : h.startsWith("#") ? this._window().location.href.split("#")[0] + h : h; }
  set href(v) { this.setAttribute("href", v); }
  get hash() { const i = this.href.indexOf("#"); return i < 0 || i == this.href.length - 1 ? "" : this.href.slice(i); }
  get src() { return this.getAttribute("src") ?? ""; }
  set src(v) { this.setAttribute("src", v); }
  get type() { return this.getAttribute("type") ?? ""; }
  set type(v) { this.setAttribute("type", v); }
  get name() { return this.getAttribute("name") ?? ""; }
  set name(v) { this.setAttribute("name", v); }
  get lang() { return this.getAttribute("lang") ?? ""; }
  get ownerSVGElement() { return this.namespaceURI.endsWith("svg") ? this.parentNode?.closest?.("svg") ?? null : null; }
  get text() { return this.textContent; }
  set text(v) { this.textContent = v; }
  _native() { return ["a", "area"].includes(this.localName) && this.hasAttribute("href") || ["button", "input", "select", "textarea"].includes(this.localName) && !this.hasAttribute("disabled"); }
  get _focusable() { return (this._native() || !isNaN(parseInt(this.getAttribute("tabindex")))) && this.isConnected && this._window().__shown(this); }
  focus() {
    const d = this.ownerDocument;
    if (!this._focusable || d._active === this) return;
    const old = d.activeElement;
    if (old && old !== d.body) old.blur();
    d._active = this;
    this.dispatchEvent(new FocusEvent("focus", { relatedTarget: old }));
    this.dispatchEvent(new FocusEvent("focusin", { bubbles: true, relatedTarget: old }));
  }
  blur() {
    const d = this.ownerDocument;
    if (d._active !== this) return;
    d._active = null;
    this.dispatchEvent(new FocusEvent("blur"));
    this.dispatchEvent(new FocusEvent("focusout", { bubbles: true }));
  }
  click() { this.dispatchEvent(new MouseEvent("click", { bubbles: true, cancelable: true, button: 0, view: this._window() })); }
}
export class HTMLElement extends Element { }
export class SVGElement extends Element { }

export class Document extends Node {
  constructor() { super(null); this._active = null; this.defaultView = null; this.readyState = "complete"; this.compatMode = "CSS1Compat"; this.hidden = false; this.visibilityState = "visible"; this.contentType = "text/html"; this.cookie = ""; }
  get nodeType() { return 9; } get nodeName() { return "#document"; }
  _eventParent() { return this.defaultView; }
  _window() { return this.defaultView; }
  get documentElement() { return this._kids.find(k => k.nodeType == 1) ?? null; }
  get body() { return this.documentElement?._els.find(e => e.localName == "body") ?? null; }
  get head() { return this.documentElement?._els.find(e => e.localName == "head") ?? null; }
  get title() { return this.querySelector("title")?.textContent ?? ""; }
  get location() { return this.defaultView?.location ?? null; }
  get URL() { return this.location?.href ?? "about:blank"; }
  get activeElement() { const a = this._active; return a && a.isConnected ? a : this.body; }
  get scrollingElement() { return this.documentElement; }
  get currentScript() { return null; }
  get forms() { return new HTMLCollection([]); }
  get links() { return this.querySelectorAll("a[href]"); }
  get images() { return this.getElementsByTagName("img"); }
  get implementation() { return { createHTMLDocument: t => blank(t), hasFeature: () => true }; }
  hasFocus() { return true; }
  getElementById(id) { id = String(id); if (id === "") return null; for (const e of this._walk()) if (e.getAttribute("id") === id) return e; return null; }
  getElementsByName(n) { return new NodeList([...this._walk()].filter(e => e.getAttribute("name") === n)); }
  createElement(t) { return new HTMLElement(String(t).toLowerCase(), this); }
  createElementNS(ns, t) { return ns && ns.endsWith("svg") ? new SVGElement(t, this, ns) : new HTMLElement(t, this); }
  createTextNode(s) { return new Text(String(s), this); }
  createComment(s) { return new Comment(String(s), this); }
  createDocumentFragment() { return new DocumentFragment(this); }
  createEvent(kind) { const C = { mouseevents: MouseEvent, mouseevent: MouseEvent, keyboardevent: KeyboardEvent, customevent: CustomEvent }[kind.toLowerCase()] || Event; const e = new C(""); e.initEvent = (t, b, c) => { e.type = t; e.bubbles = b; e.cancelable = c; }; return e; }
  importNode(n, deep) { return n.cloneNode(deep); }
  adoptNode(n) { n.remove(); return n; }
  elementFromPoint() { return this.body; }
  execCommand() { return false; }
  createTreeWalker(root, what = -1) {
    const all = []; (function go(n) { for (const k of n._kids) { if (what & (1 << (k.nodeType - 1))) all.push(k); go(k); } })(root);
    let i = -1; return { root, currentNode: root, nextNode() { return (this.currentNode = all[++i] ?? null); } };
  }
  _copy() { return new Document(); }
  get outerHTML() { return this._kids.map(k => k.outerHTML).join(""); }
  open() { } close() { } write() { }
}
function blank(title = "") { const d = new Document(); parseInto(d, `<html><head><title>${encode(title)}</title></head><body></body></html>`, d); return d; }

// ---- reading HTML --------------------------------------------------------------------------------------------------
const TAG = /<!--([\s\S]*?)-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][^\s\/>]*)((?:\s+|\/(?!>)|[^\s"'=<>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'=<>`]+))?)*)\s*(\/?)>/gi;
const ATTR = /([^\s"'=<>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'=<>`]+)))?/g;
const PCLOSE = new Set("address article aside blockquote details div dl fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 header hr main nav ol p pre section table ul".split(" "));
export function parseInto(root, html, doc) {
  const stack = [root], top = () => stack[stack.length - 1];
  const text = s => { if (s) { const t = new Text(s, doc); t.parentNode = top(); top()._kids.push(t); } };
  const re = new RegExp(TAG); re.lastIndex = 0;
  let at = 0, m;
  while ((m = re.exec(html))) {
    text(decode(html.slice(at, m.index)));
    at = re.lastIndex;
    if (m[1] !== undefined) { const c = new Comment(m[1], doc); c.parentNode = top(); top()._kids.push(c); continue; }
    if (!m[3]) continue;
    let name = m[3];
    const svg = top().nodeType == 1 && top().namespaceURI.endsWith("svg");
    if (!svg || name.toLowerCase() == "svg") name = name.toLowerCase();
    if (m[2]) {
      const i = stack.findLastIndex(e => e.localName == name);
      if (i > 0) stack.length = i;
      continue;
    }
    if (PCLOSE.has(name)) { const i = stack.findLastIndex(e => e.localName == "p"); if (i > 0 && !stack.slice(i).some(e => e.localName == "button")) stack.length = i; }
    if (name == "li" || name == "dt" || name == "dd" || name == "tr" || name == "td") { if (top().localName == name) stack.length--; }
    const el = svg || name == "svg" ? new SVGElement(name, doc, "http://www.w3.org/2000/svg") : new HTMLElement(name, doc);
    for (const a of m[4].matchAll(ATTR)) { const k = el._n(a[1]); if (!el._at.has(k)) el._at.set(k, decode(a[2] ?? a[3] ?? a[4] ?? "")); }
    el.parentNode = top(); top()._kids.push(el);
    if (RAW.has(name) || name == "textarea" || name == "title") {
      const end = html.toLowerCase().indexOf("</" + name, at), stop = end < 0 ? html.length : end, s = html.slice(at, stop);
      stack.push(el); text(RAW.has(name) ? s : decode(s)); stack.pop();
      at = re.lastIndex = end < 0 ? html.length : html.indexOf(">", end) + 1;
    } else if (!VOID.has(name) && !(m[5] && (svg || name == "svg"))) stack.push(el);
  }
  text(decode(html.slice(at)));
  clock++;
}

// ---- selectors -----------------------------------------------------------------------------------------------------
const cache = new Map();
export function compile(s) {
  s = String(s);
  if (!cache.has(s)) cache.set(s, parseSelector(s));
  return cache.get(s);
}
function parseSelector(s, relative = false) {
  let i = 0;
  const ws = () => { while (i < s.length && /\s/.test(s[i])) i++; };
  const ident = () => {
    let o = "";
    while (i < s.length) {
      const c = s[i];
      if (c == "\\") {
        const h = /^[0-9a-fA-F]{1,6}\s?/.exec(s.slice(i + 1));
        if (h) { o += String.fromCodePoint(parseInt(h[0], 16)); i += 1 + h[0].length; }
        else { if (i + 1 >= s.length) throw syntax(`bad selector ${s}`); const ch = String.fromCodePoint(s.codePointAt(i + 1)); o += ch; i += 1 + ch.length; }
      } else if (/[\w-]/.test(c) || c > "\x7f") { o += c; i++; }
      else break;
    }
    return o;
  };
  const name = () => { const st = i, o = ident(), raw = s.slice(st, i); if (!raw || /^-?\d/.test(raw) || raw == "-") throw syntax(`'${s}' is not a valid selector`); return o; };
  const inner = () => {
    let d = 1, st = i, q = null;
    for (; i < s.length; i++) {
      if (q) { if (s[i] == q) q = null; continue; }
      if (s[i] == '"' || s[i] == "'") q = s[i]; else if (s[i] == "(") d++; else if (s[i] == ")" && !--d) { i++; return s.slice(st, i - 1); }
    }
    throw syntax(`'${s}' is not a valid selector`);
  };
  const simple = () => {
    const c = s[i];
    if (c == "*") { i++; return { t: "*" }; }
    if (c == "&") { i++; return { t: "scope" }; }
    if (c == "#") { i++; const st = i, v = ident(); if (i == st) throw syntax(`'${s}' is not a valid selector`); if (/^\d/.test(s.slice(st))) throw syntax(`'${s}' is not a valid selector`); return { t: "#", v }; }
    if (c == ".") { i++; return { t: ".", v: name() }; }
    if (c == "[") {
      i++; ws(); const k = name().toLowerCase(); ws();
      const op = /^[~|^$*]?=/.exec(s.slice(i));
      let v = null, ci = false;
      if (op) {
        i += op[0].length; ws();
        if (s[i] == '"' || s[i] == "'") {
          const q = s[i++]; v = "";
          while (i < s.length && s[i] != q) { if (s[i] == "\\") i++; v += s[i++]; }
          if (s[i++] != q) throw syntax(`'${s}' is not a valid selector`);
        } else v = name();
        ws();
        if (/[is]/i.test(s[i])) { ci = /i/i.test(s[i]); i++; ws(); }
      }
      if (s[i++] != "]") throw syntax(`'${s}' is not a valid selector`);
      return { t: "[", k, op: op && op[0], v, ci };
    }
    if (c == ":") {
      i++;
      if (s[i] == ":") throw syntax(`'${s}': pseudo-elements match nothing`);
      const n = name().toLowerCase();
      if (s[i] == "(") {
        i++; const arg = inner();
        if (["not", "is", "where", "matches"].includes(n)) return { t: n == "not" ? "not" : "is", a: parseSelector(arg), zero: n == "where" };
        if (n == "has") return { t: "has", a: parseSelector(arg, true) };
        if (n.startsWith("nth-")) return { t: n, ab: nth(arg, s) };
        if (n == "lang" || n == "dir") return { t: "any" };
        throw syntax(`'${s}' is not a valid selector`);
      }
      if (!(n in PSEUDO)) throw syntax(`'${s}' is not a valid selector`);
      return { t: ":", v: n };
    }
    return { t: "tag", v: name().toLowerCase() };
  };
  const compound = () => { const out = []; while (i < s.length && !/[\s>+~,)]/.test(s[i])) out.push(simple()); if (!out.length) throw syntax(`'${s}' is not a valid selector`); return out; };
  const list = [];
  ws();
  if (i >= s.length) throw syntax(`'${s}' is not a valid selector`);
  for (; ;) {
    ws();
    const parts = [];
    let comb = null;
    if (/[>+~]/.test(s[i] ?? "")) { if (!relative) throw syntax(`'${s}' is not a valid selector`); comb = s[i++]; ws(); }
    if (relative) parts.push([null, [{ t: "scope" }]], [comb ?? " ", compound()]);
    else parts.push([null, compound()]);
    for (; ;) {
      const st = i; ws();
      if (i >= s.length || s[i] == ",") break;
      let c = " ";
      if (/[>+~]/.test(s[i])) { c = s[i++]; ws(); } else if (st == i) throw syntax(`'${s}' is not a valid selector`);
      parts.push([c, compound()]);
    }
    list.push(parts);
    if (s[i] == ",") { i++; continue; }
    break;
  }
  return list;
}
function nth(a, s) {
  a = a.replace(/\s+/g, "").toLowerCase();
  if (a == "odd") return [2, 1]; if (a == "even") return [2, 0];
  let m = /^([+-]?\d*)n([+-]\d+)?$/.exec(a);
  if (m) return [m[1] == "" || m[1] == "+" ? 1 : m[1] == "-" ? -1 : +m[1], +(m[2] || 0)];
  if (/^[+-]?\d+$/.test(a)) return [0, +a];
  throw syntax(`'${s}' is not a valid selector`);
}
const sibs = (e, same) => (e.parentNode ? e.parentNode._els : [e]).filter(x => !same || x.localName == e.localName);
const isAt = ([a, b], n) => a == 0 ? n == b : (n - b) / a >= 0 && (n - b) % a == 0;
const PSEUDO = {
  "scope": (e, sc) => e === sc || sc.nodeType == 9 && e === sc.documentElement, "root": e => e.parentNode?.nodeType == 9,
  "first-child": e => sibs(e)[0] === e, "last-child": e => sibs(e).at(-1) === e, "only-child": e => sibs(e).length == 1,
  "first-of-type": e => sibs(e, 1)[0] === e, "last-of-type": e => sibs(e, 1).at(-1) === e, "only-of-type": e => sibs(e, 1).length == 1,
  "empty": e => !e._kids.some(k => k.nodeType == 1 || k.nodeType == 3 && k.data), "hover": e => !!e._window()?._hover?.has(e), "active": () => false,
  "focus": e => e.ownerDocument._active === e, "focus-visible": e => e.ownerDocument._active === e,
  "focus-within": e => !!e.ownerDocument._active && e.contains(e.ownerDocument._active), "target": () => false,
  "checked": () => false, "disabled": e => e.hasAttribute("disabled"), "enabled": e => /^(button|input|select|textarea)$/.test(e.localName) && !e.hasAttribute("disabled"),
  "link": e => e.localName == "a" && e.hasAttribute("href"), "any-link": e => e.localName == "a" && e.hasAttribute("href"), "visited": () => false, "defined": () => true,
};
function matchSimple(x, e, sc) {
  switch (x.t) {
    case "*": case "any": return true;
    case "tag": return e.localName.toLowerCase() == x.v;
    case "#": return e._at.get("id") === x.v;
    case ".": return e._has(x.v);
    case "scope": return e === sc || sc.nodeType == 9 && e === sc.documentElement;
    case "[": {
      let v = e.getAttribute(x.k), w = x.v;
      if (v === null) return false;
      if (!x.op) return true;
      if (x.ci) { v = v.toLowerCase(); w = w.toLowerCase(); }
      switch (x.op) {
        case "=": return v === w; case "~=": return w !== "" && v.split(/\s+/).includes(w); case "|=": return v === w || v.startsWith(w + "-");
        case "^=": return w !== "" && v.startsWith(w); case "$=": return w !== "" && v.endsWith(w); case "*=": return w !== "" && v.includes(w);
      }
    }
    case "not": return !x.a.some(c => matchComplex(c, e, sc));
    case "is": return x.a.some(c => matchComplex(c, e, sc));
    case "has": {
      const scope = x.a.some(c => /[+~]/.test(c[1][0])) ? [...(e.parentNode?._walk() ?? [])] : [...e._walk()];
      return scope.some(d => x.a.some(c => matchComplex(c, d, e)));
    }
    case ":": return PSEUDO[x.v](e, sc);
    case "nth-child": return isAt(x.ab, sibs(e).indexOf(e) + 1);
    case "nth-last-child": return isAt(x.ab, sibs(e).reverse().indexOf(e) + 1);
    case "nth-of-type": return isAt(x.ab, sibs(e, 1).indexOf(e) + 1);
    case "nth-last-of-type": return isAt(x.ab, sibs(e, 1).reverse().indexOf(e) + 1);
  }
  throw syntax("unknown selector " + x.t);
}
function matchComplex(parts, e, sc, n = parts.length - 1) {
  const [comb, comp] = parts[n];
  for (const x of comp) if (!matchSimple(x, e, sc)) return false;
  if (n == 0) return true;
  const el = x => x && x.nodeType == 1 ? x : null;
  switch (comb) {
    case ">": { const p = el(e.parentNode); return !!p && matchComplex(parts, p, sc, n - 1); }
    case " ": for (let p = el(e.parentNode); p; p = el(p.parentNode)) if (matchComplex(parts, p, sc, n - 1)) return true; return false;
    case "+": { const p = e.previousElementSibling; return !!p && matchComplex(parts, p, sc, n - 1); }
    case "~": for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (matchComplex(parts, p, sc, n - 1)) return true; return false;
  }
}
function select(s, root, one = false) {
  const c = compile(s), out = [];
  for (const e of root._walk()) if (c.some(x => matchComplex(x, e, root))) { out.push(e); if (one) break; }
  return out;
}
function specificity(parts) {
  let a = 0, b = 0, c = 0;
  for (const [, comp] of parts) for (const x of comp) {
    if (x.t == "#") a++; else if (x.t == "tag") c++;
    else if (x.t == "not" || x.t == "is" || x.t == "has") { if (!x.zero) { const m = x.a.map(specificity).sort((p, q) => p - q).at(-1) ?? 0; a += Math.floor(m / 1e6); b += Math.floor(m / 1e3) % 1e3; c += m % 1e3; } }
    else if (x.t != "*") b++;
  }
  return a * 1e6 + b * 1e3 + c;
}

// ---- style sheet: what is displayed -------------------------------------------------------------------------------------
export function displayRules(css) {
  css = css.replace(/\/\*[\s\S]*?\*\//g, "");
  const rules = [];
  let order = 0;
  (function block(text, parent) {
    let i = 0, st = 0, q = null;
    for (; i < text.length; i++) {
      const ch = text[i];
      if (q) { if (ch == q) q = null; continue; }
      if (ch == '"' || ch == "'") { q = ch; continue; }
      if (ch == "(") { let d = 1; while (d && ++i < text.length) { if (text[i] == "(") d++; if (text[i] == ")") d--; } continue; }
      if (ch == ";") { decl(text.slice(st, i), parent); st = i + 1; }
      if (ch == "{") {
        const head = text.slice(st, i).trim();
        let d = 1, j = i + 1;
        for (; j < text.length && d; j++) { if (text[j] == "{") d++; if (text[j] == "}") d--; }
        const body = text.slice(i + 1, j - 1);
        if (head.startsWith("@")) { if (/^@media\s+(screen|all)\s*$/.test(head)) block(body, parent); }
        else {
          let sel = head;
          if (parent) sel = split(head).map(h => h.includes("&") ? h.replaceAll("&", `:is(${parent})`) : `:is(${parent}) ${h}`).join(", ");
          block(body, sel);
        }
        i = j - 1; st = j;
      }
    }
    decl(text.slice(st), parent);
  })(css, null);
  function split(h) { const o = []; let d = 0, c = ""; for (const ch of h) { if (ch == "(") d++; if (ch == ")") d--; if (ch == "," && !d) { o.push(c.trim()); c = ""; } else c += ch; } o.push(c.trim()); return o; }
  function decl(t, sel) {
    const m = /^\s*display\s*:\s*([^!]+?)\s*(!\s*important)?\s*$/i.exec(t);
    if (!m || !sel) return;
    let c;
    try { c = compile(sel.split(",").every(x => !x.includes("::")) ? sel : split(sel).filter(x => !x.includes("::")).join(", ") || "x-none"); } catch { return; }
    for (const parts of c) rules.push({ parts, spec: specificity(parts), order: order++, v: m[1].toLowerCase(), imp: !!m[2] });
  }
  return rules.sort((a, b) => a.imp - b.imp || a.spec - b.spec || a.order - b.order);
}

// ---- window --------------------------------------------------------------------------------------------------------
export class Window extends EventTarget { }
function place(url) {
  const u = new URL(url);
  for (const f of ["assign", "replace"]) Object.defineProperty(u, f, { value: v => { u.href = new URL(v, u.href).href; } });
  Object.defineProperty(u, "reload", { value() { } });
  return u;
}
export function makeWindow(html, { url = "https://example.org/paper/index.html", css = [], height = 600, fetchScript = () => false, runScript = () => { } } = {}) {
  const doc = new Document(), win = new Window();
  const page = /<html[\s>]/i.test(html) ? html : /<body[\s>]/i.test(html) ? `<html><head></head>${html}</html>` : `<html><head></head><body>${html}</body></html>`;
  parseInto(doc, page, doc);
  doc.defaultView = win;
  doc._inserted = n => {
    if (n.nodeType != 1 || n.localName != "script" || !n.isConnected) return;
    if (n.src) setT(() => n.dispatchEvent(new Event(fetchScript(n.src) ? "load" : "error")), 0);
    else if (n.textContent.trim() && !n._ran) { n._ran = true; runScript(n.textContent); }
  };
  win._errors = []; win._hover = new Set(); win._log = []; win._observed = []; win._scrolls = []; win._clip = [];
  win._window = () => win;
  // time
  let now = 0, tid = 0; const timers = new Map();
  const setT = (f, ms = 0, ...a) => { timers.set(++tid, { at: now + Math.max(0, +ms || 0), f, a, id: tid }); return tid; };
  win.__advance = async ms => {
    const end = now + ms;
    for (let n = 0; n < 10000; n++) {
      await null;
      const due = [...timers.values()].filter(t => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
      if (!due) break;
      now = Math.max(now, due.at);
      if (due.every) due.at = now + Math.max(1, due.every); else timers.delete(due.id);
      try { const r = due.f(...due.a); if (r && typeof r.then == "function") r.then(null, e => win._errors.push({ where: "timer", message: String(e) })); }
      catch (e) { win._errors.push({ where: "timer", message: String(e && e.message || e), stack: String(e && e.stack || "") }); }
    }
    now = end;
    for (let i = 0; i < 5; i++) await null;
  };
  // display
  const rules = css.flatMap(displayRules).sort((a, b) => a.imp - b.imp || a.spec - b.spec || a.order - b.order);
  const dcache = { at: -1, m: new Map() };
  const display = e => {
    if (dcache.at != clock) { dcache.at = clock; dcache.m.clear(); }
    if (dcache.m.has(e)) return dcache.m.get(e);
    let v = NOTDISPLAYED.has(e.localName) || e.hasAttribute("hidden") ? "none" : INLINE.has(e.localName) ? "inline" : "block", imp = false;
    for (const r of rules) if (matchComplex(r.parts, e, doc)) { v = r.v; imp = r.imp; }
    const own = e.hasAttribute("style") ? declarations(e.getAttribute("style")).get("display") : null;
    if (own && (own.imp || !imp)) v = own.v;
    dcache.m.set(e, v);
    return v;
  };
  const shown = e => { for (; e && e.nodeType == 1; e = e.parentNode) if (display(e) == "none") return false; return true; };
  const lay = { at: -1, top: new Map(), bottom: new Map() };
  const APART = ["float-minimap-wrapper", "hr-menu", "toast", "tooltipster-base"];       // fixed or absolute: takes no room
  const layout = () => {
    if (lay.at == clock) return;
    lay.at = clock; lay.top.clear(); lay.bottom.clear();
    let y = 0;
    (function go(e) {
      if (display(e) == "none") return;
      lay.top.set(e, y);
      const leaf = !e._els.length;
      if (leaf && !INLINE.has(e.localName)) y += 20 + 20 * Math.floor(e.textContent.length / 80);
      for (const k of e._els) go(k);
      if (leaf && y == lay.top.get(e) && e.textContent.trim()) y += 4;
      lay.bottom.set(e, y);
      if (APART.some(c => e.classList.contains(c))) y = lay.top.get(e);
    })(doc.documentElement);
    win._height = y;
  };
  const rect = e => {
    layout();
    if (!lay.top.has(e)) return { x: 0, y: 0, top: 0, bottom: 0, left: 0, right: 0, width: 0, height: 0 };
    const t = lay.top.get(e) - win.scrollY, b = lay.bottom.get(e) - win.scrollY;
    return { x: 0, y: t, top: t, bottom: b, left: 0, right: 800, width: 800, height: b - t };
  };
  const amount = a => a.length == 1 && typeof a[0] == "object" ? +a[0].top || 0 : +a[1] || 0;
  const scrollTo = y => { layout(); win.scrollY = win.pageYOffset = Math.max(0, Math.min(y, Math.max(0, win._height - win.innerHeight))); win.dispatchEvent(new Event("scroll")); };
  class Observer {
    constructor(f) { this.f = f; this.els = new Set(); this.told = new Map(); win._observed.push(this); }
    observe(e) { this.els.add(e); } unobserve(e) { this.els.delete(e); this.told.delete(e); } disconnect() { this.els.clear(); this.told.clear(); } takeRecords() { return []; }
  }
  class ResizeObserver extends Observer { } class MutationObserver extends Observer { } class IntersectionObserver extends Observer { }
  win.__resize = () => {
    for (const o of win._observed) if (o instanceof ResizeObserver && o.els.size) {
      // as in browsers: only what has changed since it was last told
      const news = [...o.els].map(e => [e, rect(e)]).filter(([e, r]) => { const was = o.told.get(e); o.told.set(e, r.height); return was !== r.height; });
      if (!news.length) continue;
      try { o.f(news.map(([e, r]) => { return { target: e, contentRect: r, borderBoxSize: [{ blockSize: r.height, inlineSize: r.width }], contentBoxSize: [{ blockSize: r.height, inlineSize: r.width }] }; }), o); }
      catch (e) { win._errors.push({ where: "resize", message: String(e && e.message || e), stack: String(e && e.stack || "") }); }
    }
  };
  const log = k => (...a) => { win._log.push([k, a.map(x => x instanceof Error ? `${x.name}: ${x.message}` : x instanceof Node ? x.nodeName : typeof x == "object" && x && "message" in x ? String(x.message) : String(x)).join(" ")]); };
  const store = () => { const m = new Map(); return { getItem: k => m.get(k) ?? null, setItem: (k, v) => m.set(k, String(v)), removeItem: k => m.delete(k), clear: () => m.clear() }; };
  Object.assign(win, {
    document: doc, innerHeight: height, innerWidth: 800, outerHeight: height, outerWidth: 800, scrollY: 0, scrollX: 0, pageYOffset: 0, pageXOffset: 0, devicePixelRatio: 1,
    location: place(url),
    history: { pushState() { }, replaceState() { }, length: 1, state: null },
    navigator: { userAgent: "Mozilla/5.0", language: "en", languages: ["en"], platform: "Linux", maxTouchPoints: 0, onLine: true, clipboard: { writeText: async t => { if (win._clipFails) throw new DOMException("denied", "NotAllowedError"); win._clip.push(String(t)); }, readText: async () => win._clip.at(-1) ?? "" } },
    screen: { width: 800, height }, localStorage: store(), sessionStorage: store(),
    console: { log: log("log"), info: log("info"), debug: log("debug"), warn: log("warn"), error: log("error"), trace: log("log"), group() { }, groupEnd() { }, groupCollapsed() { }, table() { }, assert() { }, time() { }, timeEnd() { }, count() { }, dir() { } },
    setTimeout: setT, clearTimeout: id => timers.delete(id), setInterval: (f, ms, ...a) => { const id = setT(f, ms, ...a); timers.get(id).every = +ms || 1; return id; }, clearInterval: id => timers.delete(id),
    requestAnimationFrame: f => setT(() => f(now), 16), cancelAnimationFrame: id => timers.delete(id), requestIdleCallback: f => setT(f, 1), queueMicrotask: f => { Promise.resolve().then(f); },
    performance: { now: () => now, mark() { }, measure() { } },
    getComputedStyle: e => {
      if (!(e instanceof Element)) throw new TypeError("Failed to execute 'getComputedStyle' on 'Window': parameter 1 is not of type 'Element'.");
      const get = k => k == "display" ? display(e) : k == "visibility" ? "visible" : k == "opacity" ? "1" : e.style.getPropertyValue(k) || (k == "position" ? "static" : k == "height" ? rect(e).height + "px" : k == "width" ? rect(e).width + "px" : "");
      return new Proxy({ getPropertyValue: get }, { get: (t, k) => k in t ? t[k] : typeof k == "string" ? get(kebab(k)) : undefined, has: () => true });
    },
    scrollBy: (...a) => { win._scrolls.push(amount(a)); scrollTo(win.scrollY + amount(a)); }, scrollTo: (...a) => { win._scrolls.push(amount(a) - win.scrollY); scrollTo(amount(a)); },
    matchMedia: q => ({ matches: false, media: q, addEventListener() { }, removeEventListener() { }, addListener() { }, removeListener() { } }),
    getSelection: () => ({ rangeCount: 0, toString: () => "", removeAllRanges() { }, addRange() { }, isCollapsed: true }),
    alert() { }, confirm: () => true, prompt: () => null, open: () => null, close() { }, print() { }, focus() { }, blur() { }, postMessage() { }, fetch: async () => { throw new TypeError("Failed to fetch"); },
    CSS: { escape: s => String(s).replace(/[\0-\x1f\x7f]|^-?\d|^-$|[^\w\u0080-\uffff-]/g, c => /^-?\d$|[\0-\x1f\x7f]/.test(c) ? (c.length > 1 ? "-" : "") + "\\" + c.at(-1).charCodeAt(0).toString(16) + " " : "\\" + c), supports: () => true },
    ResizeObserver, MutationObserver, IntersectionObserver, Event, UIEvent, MouseEvent, PointerEvent, FocusEvent, KeyboardEvent, CustomEvent, EventTarget, Node, Element, HTMLElement, SVGElement, Text, Comment, Document, HTMLDocument: Document, DocumentFragment, NodeList, HTMLCollection, DOMTokenList, DOMException, Window,
    NodeFilter: { SHOW_ELEMENT: 1, SHOW_TEXT: 4, SHOW_ALL: -1 }, URL, URLSearchParams, AbortController, structuredClone, btoa, atob, TextEncoder, TextDecoder,
    DOMParser: class { parseFromString(s) { const d = new Document(); parseInto(d, /<html/i.test(s) ? s : `<html><head></head><body>${s}</body></html>`, d); return d; } },
    XMLHttpRequest: class { open() { } send() { } setRequestHeader() { } },
    __rect: rect, __shown: shown, __display: display, __now: () => now,
  });
  for (const k of ["HTMLDivElement", "HTMLAnchorElement", "HTMLSpanElement", "HTMLScriptElement", "HTMLInputElement"]) win[k] = HTMLElement;
  win.window = win.self = win.top = win.parent = win.frames = win;
  win.addEventListener = win.addEventListener.bind(win);
  win.removeEventListener = win.removeEventListener.bind(win);
  win.dispatchEvent = win.dispatchEvent.bind(win);
  return win;
}
