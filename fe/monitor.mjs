// What the pages' scripts should do, watched while random readers use them: C21 (mouse), C22 (keyboard), C23 (references,
// tables of contents, failures of loading).  Nothing here is taken from the scripts; pages are read by their own structure.
import { Event, FocusEvent, KeyboardEvent, MouseEvent } from "./dom.mjs";
import { open } from "./page.mjs";

export class Random {
  constructor(seed) { this.s = seed >>> 0; for (let i = 0; i < 5; i++) this.next(); }
  next() { let t = (this.s += 0x6d2b79f5); t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }
  int(n) { return Math.floor(this.next() * n); }
  of(a) { return a[this.int(a.length)]; }
  p(x) { return this.next() < x; }
}

const toastIcons = {};
const kid = (e, cls) => e ? [...e.children].find(c => c.classList.contains(cls)) ?? null : null;
const kids = (e, cls) => e ? [...e.children].filter(c => c.classList.contains(cls)) : [];
const zone = (x, z) => kid(x, `hr-${z}-zone`);
const squeeze = s => s.replace(/\s+/g, " ").trim();
const deepest = (e, r) => { while (e.children.length && r.p(.8)) e = r.of([...e.children]); return e; };

function name(x) {
  const l = x.querySelector(".hr-menu-label");
  return `${x.classList.value}${x.id ? " #" + x.id : ""} (${l ? squeeze(l.textContent) : ""})`;
}

// One handrail of the page, as a reader sees it.
class Rail {
  constructor(el) {
    this.el = el;
    this.name = name(el);
    this.step = el.classList.contains("step"); this.proof = el.classList.contains("proof");
    this.content = zone(el, "content");
    this.button = kid(zone(el, "collapse"), "hr-collapse");
    this.dots = kid(zone(el, "border"), "hr-border-dots");
    this.zone = zone(el, "menu");
    this.menu = kid(this.zone, "hr-menu");
    this.items = kids(this.menu, "hr-menu-item");
    const item = c => this.items.find(i => i.classList.contains(c)) ?? null;
    this.one = item("collapse-subproof"); this.all = item("collapse-steps"); this.link = item("link");
    const on = i => i && !i.classList.contains("disabled");
    this.canOne = !!this.button || on(this.one); this.canAll = !!on(this.all); this.canLink = !!on(this.link);
    this.icon = this.button ? kid(this.button, "icon") : this.one ? kid(this.one, "icon") : null;
    this.text = this.one ? kid(this.one, "hr-menu-item-text") : null;
    this.allIcon = this.all ? kid(this.all, "icon") : null;
    this.allText = this.all ? kid(this.all, "hr-menu-item-text") : null;
    this.collapsed = false; this.allFlag = false; this.open = false; this.active = null;
    // what collapsing hides
    if (el.classList.contains("hr-labeled")) this.rest = [...this.content.children].filter(c => !c.classList.contains("hr-label"));
    else if (this.step) this.rest = [...this.content.children].filter(c => !c.classList.contains("statement"));
    else this.rest = [...el.parentElement.children].filter(c => c !== el);
    const steps = this.proof ? kids(this.content, "step") : this.step ? kids(this.content, "subproof").flatMap(s => kids(zone(s, "content"), "step")) : [];
    this.steps = steps.filter(s => kids(zone(s, "content"), "subproof").length);
    this.heading = el.classList.contains("heading");
  }
}

export class Reader {
  constructor(page, r, out, fixup) {
    Object.assign(this, { page, win: page.win, doc: page.doc, r, out, fixup });
    this.rails = [...this.doc.querySelectorAll(".hr")].map(e => new Rail(e));
    this.by = new Map(this.rails.map(x => [x.el, x]));
    this.base = new Map();
    this.all = [...this.doc.querySelectorAll("*")];
    for (const e of this.all) this.base.set(e, this.win.__display(e) != "none");
    this.icons = new Map();
    for (const x of this.rails) for (const i of [x.icon, x.allIcon]) if (i) this.icons.set(i, i.innerHTML);
    this.did = [];
    this.closed = new Set();
    this.toasts = [];
    this.errors = 0;
  }
  problem(m) { this.out.problems.push({ what: m, after: this.did.slice(-12) }); }
  saw(k, n = 1) { if (n) this.out.saw[k] = (this.out.saw[k] || 0) + n; }
  step(s) { this.did.push(s); this.saw(s.split(":")[0]); }

  // -- the reader's hands ---------------------------------------------------------------------------------------------
  fire(el, type, init = {}) { return el.dispatchEvent(new MouseEvent(type, { bubbles: true, cancelable: true, view: this.win, button: 0, ...init })); }
  hover(el) {
    const old = this.win._hover, now = new Set();
    for (let e = el; e && e.nodeType == 1; e = e.parentNode) now.add(e);
    this.win._hover = now;
    for (const e of old) if (!now.has(e)) { this.fire(e, "mouseleave", { bubbles: false }); this.fire(e, "pointerleave", { bubbles: false }); }
    this.fire(el, "mouseover");
    for (const e of [...now].reverse()) if (!old.has(e)) { this.fire(e, "mouseenter", { bubbles: false }); this.fire(e, "pointerenter", { bubbles: false }); }
    const left = [...old].filter(e => !now.has(e));
    for (const x of this.rails) if (x.open && left.includes(x.menu)) { x.open = false; x.active = null; }
  }
  click(el) {
    this.hover(el);
    this.fire(el, "pointerdown"); this.fire(el, "mousedown");
    for (let e = el; e && e.nodeType == 1; e = e.parentNode) if (e._focusable) { e.focus(); break; }
    this.fire(el, "pointerup"); this.fire(el, "mouseup"); this.fire(el, "click");
  }
  key(k) {
    const t = this.doc.activeElement || this.doc.body, init = { key: k, code: k.length == 1 ? "Key" + k.toUpperCase() : k, keyCode: { Enter: 13, ArrowUp: 38, ArrowDown: 40, ".": 190, ",": 188, ";": 186 }[k] ?? k.toUpperCase().charCodeAt(0), bubbles: true, cancelable: true, repeat: false, ctrlKey: false, altKey: false, metaKey: false, shiftKey: k == "H" };
    init.which = init.keyCode;
    const ev = new KeyboardEvent("keydown", init);
    this.prevented = !t.dispatchEvent(ev);
    (this.doc.activeElement || this.doc.body).dispatchEvent(new KeyboardEvent("keyup", init));
  }
  fix() {                                                   // browsers take the focus from what is no longer shown
    const a = this.doc._active;
    if (this.fixup && a && !this.win.__shown(a)) this.doc._active = null;
  }

  // -- what should be ---------------------------------------------------------------------------------------------------
  toggle(x) { x.collapsed = !x.collapsed; }
  toggleAll(x) {
    x.allFlag = !x.allFlag;
    for (const s of x.steps) this.by.get(s).collapsed = x.allFlag;
  }
  check() {
    const { win } = this;
    for (const e of win._errors.slice(this.errors)) this.problem(`${e.where}: ${e.message}`);
    this.errors = win._errors.length;
    const hidden = new Set(this.rails.filter(x => x.collapsed).flatMap(x => x.rest));
    const zones = new Map(this.rails.filter(x => x.zone).map(x => [x.zone, x]));
    let n = 0;
    const go = (e, up) => {
      const x = zones.get(e);
      const want = up && !hidden.has(e) && (x && x.menu ? x.open : this.base.get(e) ?? true);
      if (want != (up && win.__display(e) != "none")) {
        if (n++ < 2) this.problem(x ? `menu of ${x.name} is ${want ? "not shown" : "shown"}` : `${e.localName} ${e.classList.value || ""} ${e.id ? "#" + e.id : ""} is ${want ? "not shown" : "shown"}: ${squeeze(e.textContent).slice(0, 60)}`);
        return;
      }
      if (want) for (const k of e.children) if (!["toast", "float-minimap-wrapper"].some(c => k.classList.contains(c))) go(k, true);
    };
    go(this.doc.documentElement, true);
    for (const x of this.rails) {
      if (x.el.classList.contains("hr-collapsed") != x.collapsed) this.problem(`${x.name} is ${x.collapsed ? "not " : ""}marked as collapsed`);
      const mark = (icon, text, on, a, b, ta, tb) => {
        if (!icon) return;
        if (icon.classList.contains(b) != on || icon.classList.contains(a) == on) this.problem(`${x.name}: icon ${icon.classList.value}, should be ${on ? b : a}`);
        if (!icon.querySelector("svg")) this.problem(`${x.name}: icon ${icon.classList.value} shows nothing`);
        else if ((squeeze(icon.innerHTML) == squeeze(this.icons.get(icon))) == on) this.problem(`${x.name}: icon for ${on ? b : a} looks wrong`);
        if (text && text.textContent != (on ? tb : ta)) this.problem(`${x.name}: menu says ${text.textContent}, should say ${on ? tb : ta}`);
      };
      if (x.canOne || x.collapsed) mark(x.icon, x.text, x.collapsed, "collapse", "expand", "Collapse", "Expand");
      mark(x.allIcon, x.allText, x.allFlag, "collapse-all", "expand-all", "Collapse all", "Expand all");
      const act = x.items.filter(i => i.classList.contains("active"));
      if (act.length != (x.active ? 1 : 0) || x.active && act[0] !== x.active) this.problem(`${x.name}: active items ${act.map(i => squeeze(i.textContent))}, should be ${x.active ? squeeze(x.active.textContent) : "none"}`);
    }
    const ts = [...this.doc.querySelectorAll(".toast")];
    if (ts.length != this.toasts.length) this.problem(`${ts.length} messages are shown, should be ${this.toasts.length}`);
    ts.forEach((t, i) => { const w = this.toasts[i]; if (w && (!t.classList.contains(w) || !t.closest(".manuscriptwrapper"))) this.problem(`message ${t.className} should be ${w}`); });
    ts.forEach((t, i) => {
      const w = this.toasts[i], says = t.textContent.replace(/\s+/g, " ").trim();
      if (w && (!says || /\b(not|fail|error|unable|cannot|couldn't)/i.test(says) != (w == "error"))) this.problem(`a message of ${w} says ${JSON.stringify(says)}`);
      if (w && ![...t.querySelectorAll("svg")].some(i => i.closest(".icon." + w))) this.problem(`a message of ${w} shows no icon`);
      if (w) toastIcons[w] = t.querySelector(".icon." + w)?.innerHTML.replace(/\s+/g, " ");
      if (w && toastIcons.error && toastIcons.error === toastIcons.success) this.problem("failure and success look the same");
    });
    this.saw("states checked"); this.saw("elements checked", this.all.length);
    this.out.states.add([...this.rails].map(x => (x.collapsed ? 1 : 0) + (x.open ? 2 : 0) + (x.allFlag ? 4 : 0)).join(""));
  }

  // -- mouse -------------------------------------------------------------------------------------------------------------
  visible(e) { return !!e && this.win.__shown(e); }
  async mouse() {
    const { r } = this, usable = this.rails.filter(x => this.visible(x.el));
    if (!usable.length) return;
    const pick = f => { const l = usable.filter(f); return l.length ? r.of(l) : null; };
    const d = r.next();
    let x;
    if (d < .4) {
      x = pick(x => x.button); if (!x) return;
      this.step(`click: collapse button of ${x.name}`);
      this.click(deepest(x.button, r)); this.toggle(x);
    } else if (d < .75) {
      x = pick(x => r.p(.5) ? x.menu && (x.one || x.all) : x.menu && x.dots); if (!x) return;
      if (!x.open) {
        this.step(`click: dots of ${x.name}`);
        this.click(deepest(x.dots, r)); x.open = true;
        this.check();
        if (this.out.problems.length) return;
      }
      const it = r.of(x.items.length ? [...x.items, ...(x.one ? [x.one] : []), ...(x.all ? [x.all] : [])] : [x.menu]);
      this.step(`click: menu item "${squeeze(it.textContent)}"${it.classList.contains("disabled") ? " (disabled)" : ""} of ${x.name}`);
      await this.item(x, it, () => this.click(deepest(it, r)));
      if (r.p(.7)) { this.check(); this.step(`leave: menu of ${x.name}`); this.hover(r.p(.5) ? this.doc.body : x.el); }
    } else if (d < .85) {
      x = pick(x => x.canLink && x.dots); if (!x) return;
      if (!x.open) { this.step(`click: dots of ${x.name}`); this.click(deepest(x.dots, r)); x.open = true; }
      this.step(`click: copy link of ${x.name}`);
      await this.item(x, x.link, () => this.click(deepest(x.link, r)));
      if (r.p(.7)) this.hover(this.doc.body);
    } else if (d < .93) {
      const e = r.of(this.all.filter(e => this.visible(e) && !e.closest(".hr-collapse, .hr-menu-zone, .hr-border-dots, a")));
      this.step(`click: on ${e.localName} ${e.classList.value}`);
      this.click(e);
    } else if (this.toasts.length) {
      const ts = [...this.doc.querySelectorAll(".toast")], i = r.int(ts.length), c = ts[i]?.querySelector(".close");
      if (r.p(.5) && c) { this.step("click: close message"); this.click(deepest(c, r)); this.toasts.splice(i, 1); }
      else { this.step("wait: messages go away"); await this.win.__advance(5500); this.toasts = []; }
    } else { this.step("resize: page"); this.resize(); }
  }
  resize() {
    this.win.__resize();
    for (const x of this.rails) {
      if (!x.el.classList.contains("hr-offset")) continue;
      const h = this.win.__rect(x.content).height;
      for (const z of ["border", "spacer", "info"]) {
        const e = zone(x.el, z);
        if (e && this.visible(x.el) && parseFloat(e.style.height) !== h) this.problem(`${x.name}: ${z} zone is ${e.style.height || "not given a height"}, content is ${h}px`);
      }
    }
    this.saw("heights checked", this.rails.length);
  }
  async item(x, it, act) {
    const on = !it.classList.contains("disabled"), before = this.win._clip.length;
    const link = on && it === x.link;
    if (link && this.r.p(.2)) this.win._clipFails = true;
    act();
    if (on && it === x.one) this.toggle(x);
    if (on && it === x.all) this.toggleAll(x);
    for (let i = 0; i < 8; i++) await null;
    const clip = this.win._clip.slice(before), url = this.win.location.href.split("#")[0];
    if (link) {
      const id = x.heading ? x.el.parentElement.id : x.el.id, top = x.heading && x.el.parentElement.classList.contains("level-1");
      const want = top ? url : url + "#" + id;
      this.saw("links copied");
      if (this.win._clipFails) { this.toasts.push("error"); this.saw("links that cannot be copied"); if (clip.length) this.problem("clipboard"); }
      else { this.toasts.push("success"); if (clip.length != 1 || clip[0] !== want) this.problem(`copied ${JSON.stringify(clip)}, should be ${want}, for ${x.name}`); }
      if (!top && (!id || this.doc.getElementById(id) === null)) this.problem(`${x.name} offers a link, but has no address`);
      this.win._clipFails = false;
    } else if (clip.length) this.problem(`${squeeze(it.textContent)} of ${x.name} copies ${clip}`);
  }

  // -- keyboard -----------------------------------------------------------------------------------------------------------
  places() {
    return [...this.doc.querySelectorAll("*")].filter(e => e.getAttribute("tabindex") !== "-1" && (e.hasAttribute("tabindex") || e.localName == "a" && e.hasAttribute("href") || ["button", "input", "textarea", "select"].includes(e.localName) && !e.hasAttribute("disabled")));
  }
  inside(e) { for (let p = e.parentElement; p; p = p.parentElement) if (p.classList.contains("hr-collapsed")) return true; return false; }
  say(e) { return e ? this.by.get(e)?.name ?? `${e.localName} ${squeeze(e.textContent).slice(0, 30)}` : "nothing"; }
  focused() { const a = this.doc.activeElement; return a === this.doc.body ? null : a; }
  async keys() {
    const { r } = this, old = this.focused(), x = old ? this.by.get(old) ?? null : null;
    if (r.p(.12)) {                                                     // as Tab or a click would
      const l = this.rails.filter(x => x.el._focusable && this.visible(x.el) && (r.p(.3) || x.steps.length || x.one));
      if (l.length) { const t = r.of(l); this.step(`focus: ${t.name}`); t.el.focus(); return; }
    }
    const k = r.of(x ? ["j", "j", "j", "k", "k", "h", "l", "H", ".", ".", ",", ",", ";", ";", "z", "i", "ArrowDown", "ArrowDown", "ArrowUp", "Enter", "Enter", "q", "menu", "menu", "menu"] : ["j", "j", "k", "k", "h", "l", "H", ".", ",", ";", "z", "i", "ArrowDown", "ArrowUp", "Enter", "Tab"]);
    if (k == "menu" && x && x.menu) return this.menu(x);
    if (k == "menu") return;
    this.step(`key: ${k} at ${this.say(old)}`);
    const places = this.places(), at = places.indexOf(old), seen = e => this.visible(e);
    const now = this.focused.bind(this), same = why => { if (now() !== old) this.problem(`${k} at ${this.say(old)} moves to ${this.say(now())}: ${why}`); };
    const scrolls = this.win._scrolls.length, top = this.win.scrollY, rect = old ? this.win.__rect(old) : null;
    if (["ArrowUp", "ArrowDown"].includes(k) && x && x.menu && x.open) this.arrow(x, k);
    else if (k == "Enter" && x && x.open && x.active) return this.enter(x);
    else if (k == "i" && old && old.classList.contains("tooltipstered") && this.win.$.tooltipster.instances(old).length) return this.tip(old);
    else this.key(k);
    if (["Tab", "q"].includes(k) && this.prevented) this.problem(`${k} is taken away from the browser`);
    switch (k) {
      case "j": case "k": {
        const d = k == "j" ? 1 : -1, n = places.length, got = now();
        this.saw("moves");
        if (!places.some(seen)) break;
        let ok = null;
        if (at < 0) ok = got && (got === places.find(seen) || k == "k" && got === places.findLast(seen));
        else {
          for (let i = 1; i <= n && ok === null; i++) {
            const e = places[((at + d * i) % n + n) % n];
            if (got === e) ok = seen(e);
            else if (seen(e) && !this.inside(e)) { ok = false; this.problem(`${k} at ${this.say(old)} goes to ${this.say(got)}, should go to ${this.say(e)}`); }
          }
          if (ok !== true && ok !== false) ok = got === old;
          if (ok === false && !this.out.problems.length) this.problem(`${k} at ${this.say(old)} goes to ${this.say(got)}, which is not shown`);
        }
        if (at < 0 && !ok) this.problem(`${k} goes to ${this.say(got)} at first`);
        if (at >= 0 && got && got !== old) this.brought(k, got, d, top);
        break;
      }
      case "h": case "l": {
        const d = k == "h" ? 1 : -1, got = now();
        this.saw("moves among siblings");
        if (!old) { if (got && got !== places.find(seen)) this.problem(`${k} goes to ${this.say(got)} at first`); break; }
        if (!seen(old)) break;
        let want = old;
        if (old.classList.contains("heading")) {
          const s = old.parentElement, same = e => e.localName == "section";
          if (!same(s)) { break; }
          const ss = [...s.parentElement.children].filter(same), t = ss[ss.indexOf(s) + d];
          want = t ? t.querySelector(".heading") ?? old : old;
          if (!t && got === old) want = old;
        } else {
          const ps = places.filter(e => e.parentElement === old.parentElement);
          want = ps[ps.indexOf(old) + d] ?? old;
        }
        if (seen(want) && got !== want) this.problem(`${k} at ${this.say(old)} goes to ${this.say(got)}, should go to ${this.say(want)}`);
        if (got && got !== old) this.brought(k, got, d, top);
        break;
      }
      case "H": if (now() !== (places.find(seen) ?? old)) this.problem(`H goes to ${this.say(now())}, should go to ${this.say(places.find(seen))}`); break;
      case ".": if (x && x.menu && seen(old)) { x.open = !x.open; if (!x.open) x.active = null; this.saw("menus by key"); } same("no move"); break;
      case ",": if (x && x.canOne) { this.toggle(x); this.saw("collapsed by key"); } same("no move"); break;
      case ";": if (x && x.canAll) { this.toggleAll(x); this.saw("collapsed all by key"); } same("no move"); break;
      case "z": same("no move");
        if (old && seen(old)) {
          const want = rect.top + rect.height / 2 - this.win.innerHeight / 2;
          if (this.win._scrolls.length == scrolls ? Math.abs(want) > 1 : Math.abs(this.win._scrolls.slice(scrolls).reduce((a, b) => a + b, 0) - want) > 1) this.problem(`z scrolls by ${this.win._scrolls.slice(scrolls)}, should by ${want}`);
        }
        break;
      default: same("no move");
    }
    for (let i = 0; i < 4; i++) await null;
  }
  // What the focus moves to comes to the middle of the view (if taller: its top to the top), but never by scrolling backwards.
  brought(k, e, d, top) {
    if (!this.visible(e)) return;
    const now = this.win.scrollY, r = this.win.__rect(e), h = this.win.innerHeight, y = r.top + now;
    let want = r.height > h ? y : y + r.height / 2 - h / 2;
    const small = r.height <= h && Math.abs(want - top) <= 49 && now === top;
    if (d * (want - top) < 0) want = top;
    else want = Math.max(0, Math.min(want, this.win._height - h));
    this.saw("moves with a view");
    if (now !== top) this.saw("moves that scroll");
    if (!small && Math.abs(now - want) > 1) this.problem(`${k} to ${this.say(e)} (${r.height} high, ${y} down the page) scrolls from ${top} to ${now}, should to ${want}`);
  }
  arrow(x, k) {
    const n = x.items.length, i = x.items.indexOf(x.active);
    this.key(k);
    if (!this.prevented) this.problem(`${k} in the menu of ${x.name} scrolls the page as well`);
    this.saw("menu moves");
    const got = x.items.filter(e => e.classList.contains("active"));
    const hovered = x.items.find(e => this.win._hover.has(e));
    const from = x.items.indexOf(hovered && !x.active ? hovered : x.active);
    const want = from < 0 ? [x.items[0], x.items[n - 1]] : [x.items[(from + (k == "ArrowDown" ? 1 : n - 1)) % n]];
    if (from < 0 && k == "ArrowDown") want.pop();
    if (hovered && x.active && hovered !== x.active) { x.active = got[0] ?? null; if (got.length != 1) this.problem(`${k}: ${got.length} items are active`); return; }
    if (got.length != 1 || !want.includes(got[0])) this.problem(`${k} in the menu of ${x.name} from item ${from} activates ${got.map(e => x.items.indexOf(e))}, should be ${want.map(e => x.items.indexOf(e))}`);
    x.active = got[0] ?? null;
  }
  async enter(x) {
    const it = x.active;
    await this.item(x, it, () => this.key("Enter"));
    this.saw(`Enter on ${it.classList.contains("disabled") ? "disabled item" : squeeze(it.textContent)}`);
  }
  async menu(x) {
    if (!this.visible(x.el)) return;
    if (!x.open) { this.step(`key: . at ${x.name}`); this.key("."); x.open = true; this.check(); }
    const aim = [x.one, x.all].filter(i => i && !i.classList.contains("disabled"));
    const n = aim.length && !x.active && this.r.p(.6) ? x.items.indexOf(this.r.of(aim)) + 1 : this.r.int(x.items.length + 2);
    for (let i = 0; i < n && !this.out.problems.length; i++) { const k = this.r.p(.8) ? "ArrowDown" : "ArrowUp"; this.step(`key: ${k} at ${x.name}`); this.arrow(x, k); }
    if (x.active && !this.out.problems.length && this.r.p(.8)) { this.step(`key: Enter at ${x.name}`); await this.enter(x); }
  }
  async tip(el) {
    const $ = this.win.$, was = $(el).tooltipster("status").open;
    this.key("i"); await this.win.__advance(50); await this.win.__advance(1000);
    const is = $(el).tooltipster("status").open;
    this.saw("tooltips by key");
    if (is == was) this.problem(`i leaves the tooltip of ${this.say(el)} ${is ? "open" : "closed"}`);
    for (const e of this.doc.querySelectorAll(".tooltipster-base *, .tooltipster-base")) if (!this.base.has(e)) this.base.set(e, this.win.__display(e) != "none");
  }
}

// ---- C21, C22 --------------------------------------------------------------------------------------------------------------
export async function interact(job, out) {
  const r = new Random(job.seed);
  const page = await open(job.html, { dir: job.dir, height: r.of([300, 600, 1200]), mathjax: r.p(.5), pseudocode: r.p(.5), ...r.of([{}, {}, { base: "/rsm/assets/" }, { base: "/x/", given: "./" }]), keys: true, jquery: r.p(.8) });
  if (!page.done || page.failure) { out.problems.push({ what: `onload ${page.failure || "does not end"}` }); return; }
  const w = new Reader(page, r, out, r.p(.5));
  // readers come to a page at any part of it, or with a query
  const at = page.win.location, ids = [...page.doc.querySelectorAll("[id]")];
  if (r.p(.2)) at.search = "?from=search";
  if (r.p(.4)) at.hash = ids.length && r.p(.8) ? r.of(ids).id : "";
  w.saw("pages opened at an anchor", at.href.includes("#") ? 1 : 0);
  w.saw("handrails", w.rails.length); w.saw("nested steps with subproofs", w.rails.filter(x => x.step && x.steps.length).length);
  w.resize(); w.check();
  const start = out.problems.length ? null : squeeze(page.doc.body.innerHTML);
  for (let i = 0; i < job.steps && !out.problems.length; i++) {
    if (job.what == "mouse" || job.what == "both" && r.p(.4)) await w.mouse(); else await w.keys();
    w.fix();
    if (!out.problems.length) w.check();
  }
  if (out.problems.length || job.what != "mouse") return;
  // undoing everything restores the page
  w.hover(page.doc.body);
  for (const x of w.rails) if (x.allFlag) { w.step(`undo: expand all of ${x.name}`); const t = x.all; w.fire(t, "click"); w.toggleAll(x); }
  for (const x of w.rails) if (x.collapsed) { w.step(`undo: expand ${x.name}`); w.fire(x.button || x.one, "click"); w.toggle(x); }
  for (const x of w.rails) if (x.open) { w.fire(x.menu, "mouseleave", { bubbles: false }); x.open = false; x.active = null; }
  await page.win.__advance(6000); w.toasts = [];
  w.check();
  w.saw("pages restored");
}

// ---- C23 --------------------------------------------------------------------------------------------------------------------
const ZONES = ["hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-info-zone"];
function plain(e) {
  const c = e.cloneNode(true);
  for (const k of [...c.querySelectorAll("*")]) if (ZONES.some(z => k.classList.contains(z))) k.remove();
  return squeeze(c.textContent);
}
export async function referring(job, out) {
  const r = new Random(job.seed), saw = (k, n = 1) => { if (n) out.saw[k] = (out.saw[k] || 0) + n; };
  const faults = [];
  const opt = { dir: job.dir, height: r.of([300, 600, 1200]), mathjax: r.p(.6), pseudocode: r.p(.6), jquery: r.p(.85), keys: r.p(.8), broken: [], touch: r.p(.3) };
  if (r.p(.25)) opt.broken = [r.of(["icons.js", "handrails.js", "keyboard.js", "minimap.js", "tooltips.js"])];
  for (const k of ["mathjax", "pseudocode", "jquery"]) if (!opt[k]) faults.push(k);
  faults.push(...opt.broken);
  out.faults = faults;
  const page = await open(job.html, opt), { win, doc } = page;
  const problem = m => out.problems.push({ what: m, after: [`without ${faults.join(", ") || "nothing"}`] });
  if (!page.done || page.failure) { problem(`onload ${page.failure || "does not end"}`); return; }
  for (const e of win._errors) problem(`${e.where}: ${e.message}`);
  saw("pages"); for (const f of faults) saw(`pages without ${f}`);
  // algorithms
  const pres = [...doc.querySelectorAll("pre.pseudocode")];
  if (opt.pseudocode) {
    saw("algorithms", pres.length);
    const bad = pres.filter(p => win._algorithms.filter(e => e === p).length != 1).length;
    if (bad) problem(`${bad} of ${pres.length} algorithms are not rendered, or twice`);
    if (win._algopts && win._algopts.some(o => o.lineNumber !== true || o.noEnd !== true)) problem("algorithms are rendered without line numbers, or with ends");
  }
  // math is written between marks that MathJax, as configured when it comes, knows
  if (opt.mathjax) {
    const tex = win._mathjax?.tex ?? {}, inline = tex.inlineMath ?? [["\\(", "\\)"]], shown = tex.displayMath ?? [["$$", "$$"], ["\\[", "\\]"]];
    const fits = (e, pairs) => { const t = e.textContent.trim(); return pairs.some(([a, b]) => a && b && t.length >= a.length + b.length && t.startsWith(a) && t.endsWith(b)); };
    for (const [sel, pairs] of [["span.math", inline], ["div.mathblock", shown]])
      for (const e of doc.querySelectorAll(sel)) {
        saw("formulas for MathJax");
        const c = zone(e, "content") ?? e;
        if (!fits(c, pairs)) { problem(`${sel} ${JSON.stringify(e.textContent.slice(0, 60))} is not for MathJax, which takes ${JSON.stringify([...pairs])}`); break; }
      }
    if (win._mathjax?.options?.menuOptions?.settings?.inTabOrder !== false) problem("formulas get between the places of the tab key");
  }
  // what still works when something is missing
  const rails = [...doc.querySelectorAll(".hr")].map(e => new Rail(e));
  if (!opt.broken.includes("handrails.js")) for (const x of rails.filter(x => x.button).slice(0, 5)) {
    for (const on of [true, false]) {
      x.button.dispatchEvent(new MouseEvent("click", { bubbles: true, cancelable: true }));
      saw("handrails used");
      if (x.rest.some(e => win.__display(e) == "none" && !e.classList.contains("rsm-source")) != (on && x.rest.length > 0) && x.rest.some(e => !e.classList.contains("rsm-source"))) problem(`${x.name} does not ${on ? "collapse" : "expand"}`);
    }
  }
  if (!opt.broken.includes("icons.js")) for (const i of doc.querySelectorAll(".hr .icon")) if (!i.innerHTML.includes("<svg") && !i.classList.contains("custom")) { problem(`icon ${i.className} shows nothing`); break; }
  if (opt.keys && !opt.broken.includes("keyboard.js") && !opt.broken.includes("handrails.js") && rails.length) {
    doc.body.dispatchEvent(new KeyboardEvent("keydown", { key: "j", keyCode: 74, bubbles: true, cancelable: true }));
    saw("keys used");
    if (doc.activeElement === doc.body) problem("j does nothing");
  }
  // tooltips
  const $ = win.$, links = [...doc.querySelectorAll(".manuscriptwrapper a.reference")];
  if (opt.jquery && !opt.broken.includes("tooltips.js")) {
    if (opt.mathjax && links.length && !win._typeset) problem("math in tooltips is not typeset");
    for (const a of links) {
      const href = a.getAttribute("href"), t = squeeze(a.textContent);
      saw("references");
      if (!a.classList.contains("tooltipstered")) { problem(`${href} "${t}" has no tooltip`); continue; }
      let c = $(a).tooltipster("content");
      const box = c && c[0], got = box ? plain(box) : "";
      if (href == "#" || href == "") {
        saw("references to nothing");
        if (!/no label/.test(got) || !a.classList.contains("error")) problem(`reference "${t}" to nothing shows ${JSON.stringify(got)}`);
        continue;
      }
      const el = doc.getElementById(decodeURIComponent(href.slice(1))) ?? doc.getElementById(href.slice(1));
      if (!el) continue;                                        // that is for the page's own checks
      const kind = el.localName + (el.localName == "div" ? "." + [...el.classList].find(c => !/^hr/.test(c)) : "");
      saw(`target ${kind}`);
      const own = plain(el), around = el.parentElement ? plain(el.parentElement) : "", next = el.nextElementSibling ? plain(el.nextElementSibling) : "";
      if (box && [...box.querySelectorAll("*")].some(k => ZONES.some(z => k.classList.contains(z)) && kind.startsWith("div") && !box.querySelector(".step"))) problem(`tooltip of ${href} shows handrails`);
      const picture = [...el.querySelectorAll("img")].length;
      if (!got && !(picture && box && box.querySelector("img"))) { if (own || picture) problem(`tooltip of ${href} "${t}" is empty, the ${kind} says ${JSON.stringify(own.slice(0, 80))}`); continue; }
      const isIn = s => s.includes(got);
      if (kind == "section") {
        const heads = [...el.children].slice(0, 2).map(plain);
        if (got != squeeze(heads.join(" "))) problem(`tooltip of ${href}: ${JSON.stringify(got.slice(0, 100))}, should be ${JSON.stringify(heads.join(" ").slice(0, 100))}`);
      } else if (kind == "div.step") {
        const st = kid(zone(el, "content"), "statement");
        if (st && got != plain(st)) problem(`tooltip of ${href}: ${JSON.stringify(got.slice(0, 100))}, should be ${JSON.stringify(plain(st).slice(0, 100))}`);
      } else if (["div", "p", "li", "figure", "table"].includes(el.localName)) {
        if (got != own) problem(`tooltip of ${href}: ${JSON.stringify(got.slice(0, 100))}, should be ${JSON.stringify(own.slice(0, 100))}`);
      } else if (!(el.localName == "dt" ? isIn(next) : got.includes(own) && isIn(around))) problem(`tooltip of ${href}: ${JSON.stringify(got.slice(0, 100))} is not what is around the ${kind} ${JSON.stringify(own.slice(0, 60))}`);
      saw("tooltips read");
    }
    // opening and closing a few
    for (const a of links.filter(a => a.getAttribute("tabindex") != "-1" && win.__shown(a)).slice(0, 3)) {
      a.dispatchEvent(new MouseEvent("mouseover", { bubbles: true })); a.dispatchEvent(new MouseEvent("mouseenter", {}));
      await win.__advance(1500);
      if (!$(a).tooltipster("status").open) problem(`hovering over ${a.getAttribute("href")} opens no tooltip`);
      a.dispatchEvent(new MouseEvent("mouseleave", {})); a.dispatchEvent(new MouseEvent("mouseout", { bubbles: true }));
      await win.__advance(3000);
      if ($(a).tooltipster("status").open) problem(`the tooltip of ${a.getAttribute("href")} stays`);
      saw("tooltips opened");
      if (r.p(.3)) {                                            // a finger rests on it, and goes
        if (!opt.touch) continue;
        a.dispatchEvent(new Event("touchstart", { bubbles: true }));
        await win.__advance(1500);
        if (!$(a).tooltipster("status").open) problem(`touching ${a.getAttribute("href")} opens no tooltip`);
        a.dispatchEvent(new Event("touchend", { bubbles: true }));
        await win.__advance(3000);
        if ($(a).tooltipster("status").open) problem(`the tooltip of ${a.getAttribute("href")} stays when the finger goes`);
        saw("tooltips touched");
      } else {                                                  // a click elsewhere closes it, too
        a.dispatchEvent(new MouseEvent("mouseover", { bubbles: true })); a.dispatchEvent(new MouseEvent("mouseenter", {}));
        await win.__advance(1500);
        const was = $(a).tooltipster("status").open;
        r.of([doc.body, a]).dispatchEvent(new MouseEvent("click", { bubbles: true, cancelable: true }));
        await win.__advance(3000);
        if (was && $(a).tooltipster("status").open) problem(`the tooltip of ${a.getAttribute("href")} stays after a click`);
        a.dispatchEvent(new MouseEvent("mouseleave", {})); a.dispatchEvent(new MouseEvent("mouseout", { bubbles: true }));
        await win.__advance(3000);
        saw("tooltips clicked away");
      }
    }
  }
  // tables of contents
  const offset = n => [1, 2].map(i => doc.getElementById(`stop-follow-${n}-${i}`)?.getAttribute("offset"));
  const before = win._errors.length;
  if (!opt.broken.includes("minimap.js")) {
    const items = [...doc.querySelectorAll("ul.contents li.item")];
    for (const i of items.length ? [0, items.length - 1, r.int(items.length), r.int(items.length)] : []) {
      const it = items[i], a = it.querySelector("a");
      if (a && doc.activeElement !== a && r.p(.4)) a.focus(); else it.dispatchEvent(new MouseEvent("mouseenter", {}));
      const want = (i + 1) / items.length * 100, got = offset("mouse");
      if (!doc.querySelector(".toc-wrapper > .minimap")) { saw("items of contents without a map"); continue; }
      saw("items of contents");
      if (got.some(g => g === undefined || g === null || Math.abs(parseFloat(g) - want) > .01 || !g.endsWith("%"))) problem(`pointing at item ${i + 1} of ${items.length} marks ${got}, should mark ${want}%`);
    }
    const fl = doc.querySelector(".float-minimap-wrapper"), map = kid(fl, "minimap"), toc = [...doc.querySelectorAll(".toc-wrapper")].map(w => kid(w, "minimap")).find(x => x) ?? null;
    const secs = [...doc.querySelectorAll("section")];
    const views = rect => rect.top < win.innerHeight && rect.bottom > 0;
    for (let i = 0; i < 6; i++) {
      const y = r.p(.2) ? 0 : r.int(Math.max(1, win._height || 1));
      const y0 = win.scrollY;
      win.scrollTo(0, y);
      await win.__advance(50);
      if (win.scrollY === y0) continue;
      saw("scrolls");
      if (!map || !toc) continue;
      const there = views(toc.getBoundingClientRect());
      if (map.classList.contains("hide") != there) { problem(`floating map is ${there ? "shown beside" : "hidden without"} the table of contents`); break; }
      if (there || !win.__shown(map)) continue;
      const last = secs.findLast(s => { const q = s.getBoundingClientRect(); return q.top < win.innerHeight / 2 && q.bottom > 0; });
      if (last && !last.id) { saw("floating maps on an unlabelled section"); continue; }   // known finding minimap-ids
      const dot = last && last.id ? doc.getElementById("mm-" + last.id) : null, m = map.getBoundingClientRect();
      const want = dot ? (dot.getBoundingClientRect().bottom - m.top + 12) / m.height * 100 : 0, got = offset("scroll");
      saw("floating maps"); saw("floating maps on a section", dot ? 1 : 0);
      if (got.some(g => g === undefined || g === null || !(Math.abs(parseFloat(g) - want) < .01))) problem(`floating map marks ${got}, should mark ${want}% for section ${last && last.id}`);
    }
  }
  for (const e of win._errors.slice(before)) problem(`${e.where}: ${e.message}`);
  const failed = win._log.filter(([k, m]) => k == "error" && !faults.length);
  if (failed.length) problem(`the page says ${failed[0][1]}`);
}
